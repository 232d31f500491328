From 30a705809706d637b539bbb11d9a5bbd092d5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 01/35] fix: region summary transmission losses consistent with
 the demand constraint

---
 src/nempy/markets.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..2cf307a 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3657,10 +3657,9 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
-                losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            # Net inflow at this end of the link, less the inflow seen by the regional demand constraint.
+            inflow = flow if direction == 'to_region' else -1 * flow
+            losses = inflow * (1 - loss_factor)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From 9a78f42a43d576424e807c7dcca7bc7490300ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:27 +0000
Subject: [PATCH 02/35] fix: keep regions without interconnectors in the region
 summary

---
 src/nempy/markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 2cf307a..786d704 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3542,10 +3542,11 @@ class SpotMarket:
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
             dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+        dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
-- 
2.43.0


From 3e16047306d797d207ca3a7a4d67763c743cea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:56 +0000
Subject: [PATCH 03/35] fix: ramp constraints can be set when no
 one-directional unit is left to constrain

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 786d704..122f788 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -850,13 +850,13 @@ class SpotMarket:
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = max(rhs_and_type['constraint_id'], default=self._next_constraint_id - 1) + 1
 
         rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = max(rhs_and_type['constraint_id'], default=self._next_constraint_id - 1) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
-- 
2.43.0


From 3cce2cd4e936e8657229d0d3a3e686d096e3312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 04/35] fix: setting a constraint set again replaces it
 completely

A constraint set that was made elastic and then set again without a violation cost kept deficit variables of constraints that no
longer exist, so dispatch raised KeyError. Fast start, bidirectional ramp and joint ramping sets of an earlier call stayed active
when the new call yields no such constraints.
---
 src/nempy/markets.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 122f788..5fa2d03 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -528,6 +528,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('unit_bid_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('unit_bid_capacity', violation_cost)
 
@@ -639,6 +640,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('uigf_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('uigf_capacity', violation_cost)
 
@@ -858,6 +860,8 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id'], default=self._next_constraint_id - 1) + 1
 
+        self._remove_unit_level_constraints('bidirectional_ramp_up')
+        self._remove_unit_level_constraints('bidirectional_ramp_down')
         if not bidirectional_unit_ramp_details.empty:
 
             rhs_and_type, variable_map = rrp._bidirectional_ramp_constraints(
@@ -872,6 +876,8 @@ class SpotMarket:
             self._constraint_to_variable_map['unit_level']['bidirectional_ramp_down'] = variable_map
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('ramp_up')
+        self._remove_deficit_variables('ramp_down')
         if violation_cost is not None:
             self.make_constraints_elastic('ramp_up', violation_cost)
             self.make_constraints_elastic('ramp_down', violation_cost)
@@ -1030,6 +1036,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self.remove_fast_start_constraints()
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1141,6 +1148,7 @@ class SpotMarket:
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('demand')
         if violation_cost is not None:
             self.make_constraints_elastic('demand', violation_cost)
 
@@ -1246,6 +1254,7 @@ class SpotMarket:
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('fcas')
         if violation_cost is not None:
             self.make_constraints_elastic('fcas', violation_cost)
 
@@ -1345,6 +1354,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('fcas_max_availability')
         if violation_cost is not None:
             self.make_constraints_elastic('fcas_max_availability', violation_cost)
 
@@ -1508,6 +1518,10 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        for key in ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg',
+                    'joint_ramping_lower_reg_bdu']:
+            self._remove_unit_level_constraints(key)
+
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
@@ -1726,6 +1740,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('joint_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('joint_capacity', violation_cost)
 
@@ -1865,6 +1880,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_deficit_variables('energy_and_regulation_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('energy_and_regulation_capacity', violation_cost)
 
@@ -2359,6 +2375,7 @@ class SpotMarket:
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
 
+        self._remove_deficit_variables('generic')
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
 
@@ -2732,6 +2749,7 @@ class SpotMarket:
         else:
             ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
@@ -2741,6 +2759,18 @@ class SpotMarket:
             self._lhs_coefficients[constraints_key + '_deficit'] = lhs
             self._next_variable_id = max(deficit_variables['variable_id']) + 1
 
+    def _remove_deficit_variables(self, constraints_key):
+        """Forget the elasticity of a constraint set that is being replaced or removed."""
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
+
+    def _remove_unit_level_constraints(self, constraints_key):
+        """Forget a unit level constraint set, so that setting it again replaces it completely."""
+        self._constraints_rhs_and_type.pop(constraints_key, None)
+        self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+        self._remove_deficit_variables(constraints_key)
+
     @staticmethod
     def _validate_violation_cost(violation_cost):
         schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
-- 
2.43.0


From d4b8d6ba3e47069537b331805f55bfebd4aa146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:21 +0000
Subject: [PATCH 05/35] fix: elastic joint ramping constraints when only one
 regulation service is offered

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 5fa2d03..4a523aa 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1607,8 +1607,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From 545ba169b5d550f71b4dbfbbf9c47591f936ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 06/35] fix: no joint ramping constraint for a direction
 without a telemetered ramp rate

The right hand side was nan: the filter meant to drop such rows (df[~df.isna()]) does nothing.
---
 src/nempy/markets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 4a523aa..3a1caf3 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1549,6 +1549,7 @@ class SpotMarket:
         ramp_up_rates_for_raise_reg = \
             ramp_up_rates_for_raise_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_up_rate', 'initial_output']]
         ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg.rename(columns={'ramp_up_rate': 'ramp_rate'})
+        ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg.dropna(subset=['ramp_rate'])
 
         ramp_up_rates_for_raise_reg_bdu = ramp_up_rates_for_raise_reg[
             ramp_up_rates_for_raise_reg['unit'].isin(self._bidirectional_units)]
@@ -1582,6 +1583,7 @@ class SpotMarket:
         ramp_down_rates_for_lower_reg = \
             ramp_down_rates_for_lower_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_down_rate', 'initial_output']]
         ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg.rename(columns={'ramp_down_rate': 'ramp_rate'})
+        ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg.dropna(subset=['ramp_rate'])
 
         ramp_down_rates_for_lower_reg_bdu = ramp_down_rates_for_lower_reg[
             ramp_down_rates_for_lower_reg['unit'].isin(self._bidirectional_units)]
-- 
2.43.0


From b7aea099e04ceea1c7f87dfe83aaf5070520639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 07/35] fix: joint ramping of a bidirectional unit limits its
 net output

The energy of a side that does not offer the regulation service was left out.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..9c35d3a 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,7 +16,9 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # Both sides of the unit count towards its net output, whichever of them offers regulation.
+    variable_mapping_energy = pd.concat(
+        [rhs_and_type.loc[:, ['constraint_id', 'unit']].assign(dispatch_type=side) for side in ['generator', 'load']])
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
@@ -36,7 +38,9 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # Both sides of the unit count towards its net output, whichever of them offers regulation.
+    variable_mapping_energy = pd.concat(
+        [rhs_and_type.loc[:, ['constraint_id', 'unit']].assign(dispatch_type=side) for side in ['generator', 'load']])
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
-- 
2.43.0


From e85337265f3e868622ccfc4e6955cd7d3200fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:46 +0000
Subject: [PATCH 08/35] fix: lower regulation of a charging bidirectional unit
 counts against the lower trapezium slope

Its coefficient had the opposite sign, so that enabling lower regulation on the load side freed contingency lower capability.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 9c35d3a..3899b34 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -302,7 +302,6 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 6ed6b52f6448ffe7a151a197d99b4b174885a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 09/35] fix: tie breaking links every pair of tied bids once,
 and none when there are no ties

Pairs were told apart by concatenated unit and band names, which are the same for (A band 1, B band 2) and (A band 2, B band 1), so
one of them was dropped. Without any tie an error was raised.
---
 src/nempy/markets.py                              |  2 +-
 src/nempy/spot_market_backend/unit_constraints.py | 13 +++----------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 3a1caf3..10bc9a7 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2883,7 +2883,7 @@ class SpotMarket:
 
         self._lhs_coefficients['tie_break'] = lhs
         self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
+        self._next_constraint_id = max(rhs['constraint_id'], default=self._next_constraint_id - 1) + 1
         self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..da58fd8 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -566,16 +566,9 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
 
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Keep each pair of tied bids once.
+    constraints = constraints[constraints['variable_id_x'] < constraints['variable_id_y']]
+    constraints = constraints.drop_duplicates(['variable_id_x', 'variable_id_y'])
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From cf7b75c915f1157eec9646ef8d0898de298351b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:26 +0000
Subject: [PATCH 10/35] fix: FCAS availability of bidirectional units

Their joint ramping constraints were ignored, and the limits of one side were applied to the other.
---
 src/nempy/markets.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 10bc9a7..04bbb8a 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3815,11 +3815,12 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
-                                'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
-                                'bidirectional_ramp_down']:
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
+                                'energy_and_regulation_capacity', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
-                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
+                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'dispatch_type', 'service',
+                                                                    'coefficient']]
                 constraint_slack = self._constraints_rhs_and_type[constraint_type].loc[:, ['constraint_id', 'slack',
                                                                                            'type']]
                 slack_temp = pd.merge(service_coefficients, constraint_slack, on='constraint_id')
@@ -3832,12 +3833,13 @@ class SpotMarket:
                      ((fcas_variable_slack['coefficient'] < 0.00001) & (fcas_variable_slack['coefficient'] > -0.00001)),
                      np.inf, fcas_variable_slack['slack'].abs() / fcas_variable_slack['coefficient'].abs())
         fcas_variable_slack = \
-            fcas_variable_slack.groupby(['unit', 'service'], as_index=False).aggregate({'service_slack': 'min'})
+            fcas_variable_slack.groupby(['unit', 'dispatch_type', 'service'], as_index=False).aggregate(
+                {'service_slack': 'min'})
         fcas_variable_slack = fcas_variable_slack[fcas_variable_slack['service'] != 'energy']
 
         dispatch_levels = self.get_unit_dispatch()
 
-        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'service'])
+        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'dispatch_type', 'service'])
 
         fcas_availability['availability'] = fcas_availability['dispatch'] + fcas_availability['service_slack']
         return fcas_availability.loc[:, ['unit', 'service', 'availability']]
-- 
2.43.0


From fc4111a7d0130e6cd7daf97e9be3b39f068d82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:56 +0000
Subject: [PATCH 11/35] fix: turn off CBC preprocessing, it does not respect
 special ordered sets

---
 src/nempy/spot_market_backend/solver_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..fc89518 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -13,6 +13,8 @@ class InterfaceToSolver:
         self.solver_name = solver_name
         if solver_name == 'CBC':
             self.mip_model = Model("market", solver_name=CBC)
+            # CBC's preprocessing does not respect special ordered sets, it can cut off the optimum or crash.
+            self.mip_model.preprocess = 0
             self.linear_mip_model = Model("market", solver_name=CBC)
         elif solver_name == 'GUROBI':
             self.mip_model = Model("market", solver_name=GUROBI)
-- 
2.43.0


From 8bad3a21f5a72f8eef674a1d7773e8b5bbd16b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:32 +0000
Subject: [PATCH 12/35] fix: building calls no longer modify or keep the
 caller's tables

---
 src/nempy/markets.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 04bbb8a..1ed0ed8 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,8 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()
+
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -254,6 +256,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        volume_bids = volume_bids.copy()
         if self.validate_inputs:
             self._validate_volume_bids(volume_bids)
 
@@ -394,6 +397,7 @@ class SpotMarket:
             BidsNotMonotonicIncreasing
                 If the bids band price for all units are not monotonic increasing.
         """
+        price_bids = price_bids.copy()
         self._check_unit_volume_bids_set()
         self._validate_price_bids(price_bids)
         self._validate_bidirectional_unit_inputs(price_bids, "price_bids")
@@ -517,6 +521,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        unit_limits = unit_limits.copy()
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
@@ -633,6 +638,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        unit_limits = unit_limits.copy()
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
@@ -822,6 +828,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        ramp_details = ramp_details.copy()
         self._validate_ramp_rates(ramp_details)
         self._validate_bidirectional_unit_inputs(ramp_details, "ramp_details")
 
@@ -1247,6 +1254,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the volume column.
         """
+        fcas_requirements = fcas_requirements.copy()
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
@@ -1346,6 +1354,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        fcas_max_availability = fcas_max_availability.copy()
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
@@ -1736,6 +1745,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        contingency_trapeziums = contingency_trapeziums.copy()
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
@@ -1873,6 +1883,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        regulation_trapeziums = regulation_trapeziums.copy()
         if variable_ids:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
@@ -2001,6 +2012,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if 'link' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
@@ -2224,6 +2236,9 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
+        interpolation_break_points = interpolation_break_points.copy()
+
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
@@ -2462,7 +2477,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_unit_coefficients(unit_coefficients)
-        self._generic_constraint_lhs['unit'] = unit_coefficients
+        self._generic_constraint_lhs['unit'] = unit_coefficients.copy()
 
     def _validate_generic_unit_coefficients(self, unit_coefficients):
         schema = dv.DataFrameSchema(name='unit_coefficients', primary_keys=['set', 'unit', 'service'])
@@ -2548,7 +2563,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_region_coefficients(region_coefficients)
-        self._generic_constraint_lhs['region'] = region_coefficients
+        self._generic_constraint_lhs['region'] = region_coefficients.copy()
 
     def _validate_generic_region_coefficients(self, region_coefficients):
         schema = dv.DataFrameSchema(name='region_coefficients', primary_keys=['set', 'region', 'service'])
@@ -2625,7 +2640,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_interconnector_coefficients(interconnector_coefficients)
-        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients
+        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients.copy()
 
     def _validate_generic_interconnector_coefficients(self, interconnector_coefficients):
         schema = dv.DataFrameSchema(name='interconnector_coefficients', primary_keys=['set', 'interconnector'])
-- 
2.43.0


From 32339cef44c3c610960fa97fef8be46e8fab0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:52 +0000
Subject: [PATCH 13/35] fix: reject missing or infinite capacities and initial
 outputs

The documentation says unit limits with inf or null values raise ColumnValues, but the
capacity and forecast tables and the initial output of the joint ramping table were
not checked, and the resulting NaN right hand sides corrupted the model.
---
 src/nempy/markets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 1ed0ed8..eaf4b20 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -542,7 +542,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_limits)
 
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
@@ -653,7 +653,7 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_limits)
 
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
@@ -1630,7 +1630,7 @@ class SpotMarket:
     def _validate_scada_ramp_rates_for_reg(self, ramp_details):
         schema = dv.DataFrameSchema(name='ramp_details', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='initial_output', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='initial_output', data_type=np.float64, must_be_real_number=True))
         schema.add_column(dv.SeriesSchema(name='scada_ramp_up_rate', data_type=np.float64))
         schema.add_column(dv.SeriesSchema(name='scada_ramp_down_rate', data_type=np.float64))
         schema.validate(ramp_details)
-- 
2.43.0


From 4dba6c09c009f29e5ef8755d8bb6697d3dfa8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:52 +0000
Subject: [PATCH 14/35] fix: reject unknown generic constraint types when they
 are set

An unknown type was accepted and made every later dispatch fail.
---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index eaf4b20..f5fa099 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2402,7 +2402,7 @@ class SpotMarket:
     def _validate_generic_constraint_parameters(generic_constraint_parameters):
         schema = dv.DataFrameSchema(name='generic_constraint_parameters', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
-        schema.add_column(dv.SeriesSchema(name='type', data_type=str))
+        schema.add_column(dv.SeriesSchema(name='type', data_type=str, allowed_values=['<=', '=', '>=']))
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
-- 
2.43.0


From 6895f4eb3dfea4636f8adfa75bbdf05aa1b144f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:52 +0000
Subject: [PATCH 15/35] fix: reject violation costs that repeat a set or have
 the wrong type

The documented ValueError was created but not raised, and two rows with different costs
for one set were accepted.
---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index f5fa099..750b029 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2766,7 +2766,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
@@ -2792,7 +2792,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From 3577c49935b85ed544b458e1710dc6ba95aa144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:10 +0000
Subject: [PATCH 16/35] fix: a rejected joint ramping call no longer drops the
 constraints set before

The earlier constraints were removed before the run type and fast start profiles were
looked at.
---
 src/nempy/markets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 750b029..8906421 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1527,10 +1527,6 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
-        for key in ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg',
-                    'joint_ramping_lower_reg_bdu']:
-            self._remove_unit_level_constraints(key)
-
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
@@ -1549,6 +1545,10 @@ class SpotMarket:
             ramp_rates, run_type, fast_start_profiles, self.dispatch_interval
         )
 
+        for key in ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg',
+                    'joint_ramping_lower_reg_bdu']:
+            self._remove_unit_level_constraints(key)
+
         ramp_up_rates_for_raise_reg = pd.merge(
             raise_reg_units,
             ramp_rates,
-- 
2.43.0


From b5a198e88dcc8f6136c16cfba7c49dc3493f5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:10 +0000
Subject: [PATCH 17/35] fix: reject losses of interconnectors that are not in
 the model

The documented ModelBuildError was created but not raised: losses set too early failed
after the loss shares had been stored, and losses of unknown interconnectors were ignored.
---
 src/nempy/markets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 8906421..820c678 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2234,7 +2234,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         loss_functions = loss_functions.copy()
         interpolation_break_points = interpolation_break_points.copy()
@@ -2249,6 +2249,9 @@ class SpotMarket:
             self._validate_loss_functions(loss_functions)
             self._validate_interpolation_break_points(interpolation_break_points)
 
+        if not set(loss_functions['interconnector']) <= set(self._interconnector_directions['interconnector']):
+            raise ModelBuildError('Losses cannot be set for interconnectors that have not been added to the model.')
+
         self._interconnector_loss_shares = loss_functions.loc[:, ['interconnector', 'link', 'from_region_loss_share']]
 
         loss_functions = pd.merge(loss_functions,
-- 
2.43.0


From 2ce4fb0043d591cbcdf983b27992e36e9c0bd26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:10 +0000
Subject: [PATCH 18/35] fix: reject loss shares above one

The documentation limits from_region_loss_share to the range 0.0 to 1.0, but the minimum
and maximum of a column were never checked.
---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 820c678..6ddd9f9 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2308,7 +2308,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          minimum=0.0, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..a95d88d 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -62,6 +62,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_in_range(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -92,6 +93,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_in_range(self, series):
+        if self.min is not None and series.min() < self.min:
+            raise ColumnValues("Values below {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and series.max() > self.max:
+            raise ColumnValues("Values above {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 9860949f91834c4f065a1f0edccfda3ab25c1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:44 +0000
Subject: [PATCH 19/35] fix: ramp parameters from the previous dispatch for
 bidirectional units, without a service column and with missing ramp rates

---
 src/nempy/time_sequential.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..806f674 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,14 +66,26 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
-    last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
+    last_interval_energy_dispatch = last_interval_dispatch
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = _get_net_output(last_interval_energy_dispatch)
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-    ramp_rates = ramp_rates.fillna(0.0)
+    ramp_rates['initial_output'] = ramp_rates['initial_output'].fillna(0.0)
     return ramp_rates
 
 
+def _get_net_output(energy_dispatch):
+    """One row per unit, the initial output of a unit dispatched in both directions is its generation minus its load."""
+    if 'dispatch_type' in energy_dispatch.columns:
+        energy_dispatch = energy_dispatch.copy()
+        bidirectional = energy_dispatch.groupby('unit')['dispatch_type'].transform('nunique') > 1
+        consuming = bidirectional & (energy_dispatch['dispatch_type'] == 'load')
+        energy_dispatch['dispatch'] = energy_dispatch['dispatch'].where(~consuming, -energy_dispatch['dispatch'])
+    return energy_dispatch.groupby('unit', as_index=False, sort=False)['dispatch'].sum()
+
+
 def create_seed_ramp_rate_parameters(historical_dispatch, as_bid_ramp_rates):
     """Combine historical dispatch and as bid ramp rates to get seed ramp rate parameters for a time sequential model.
 
-- 
2.43.0


From 9dd9ad0cfedc53929fd88e10940e9e61d04391f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:01 +0000
Subject: [PATCH 20/35] fix: only use the over constrained file name when that
 file exists

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..3eb1f22 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -153,7 +153,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From f2cce237d2a2921605152226c9d10c2dca03389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:01 +0000
Subject: [PATCH 21/35] fix: populating the XML cache by day includes the end
 date

---
 src/nempy/historical_inputs/xml_cache.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 3eb1f22..43e5c49 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -4,6 +4,7 @@ import requests
 import zipfile
 import io
 import os
+import calendar
 import numpy as np
 from pathlib import Path
 from datetime import datetime, timedelta, time
@@ -36,21 +37,19 @@ class XMLCacheManager:
     def populate(self, start_year, start_month, end_year, end_month, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end month."""
 
-        if end_month == 12:
-            end_month = 1
-            end_year += 1
-        else:
-            end_month += 1
+        end_day = calendar.monthrange(end_year, end_month)[1]
 
         self.populate_by_day(start_year=start_year, start_month=start_month, start_day=1,
-                             end_year=end_year, end_month=end_month, end_day=1, verbose=verbose)
+                             end_year=end_year, end_month=end_month, end_day=end_day, verbose=verbose)
 
     def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end date.
         """
 
-        start = datetime(year=start_year, month=start_month, day=start_day) - timedelta(days=1)
-        end = datetime(year=end_year, month=end_month, day=end_day)
+        # The intervals up to 04:00 on the start date are in the file of the day before, and noon is used because it
+        # belongs to the market day with the same date.
+        start = datetime(year=start_year, month=start_month, day=start_day, hour=12) - timedelta(days=1)
+        end = datetime(year=end_year, month=end_month, day=end_day, hour=12)
         download_date = start
         while download_date <= end:
             if verbose:
-- 
2.43.0


From 3c5a98e7eaa461137dd570ea87cdceb81e43954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:22 +0000
Subject: [PATCH 22/35] fix: volume bid values absent from the XML file are no
 longer filled with the value read before

---
 src/nempy/historical_inputs/xml_cache.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 43e5c49..6771221 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -367,17 +367,17 @@ class XMLCacheManager:
 
         >>> manager.get_unit_volume_bids()
                  DUID     BIDTYPE DIRECTION  MAXAVAIL  ENABLEMENTMIN  ENABLEMENTMAX  LOWBREAKPOINT  HIGHBREAKPOINT  BANDAVAIL1  BANDAVAIL2  BANDAVAIL3  BANDAVAIL4  BANDAVAIL5  BANDAVAIL6  BANDAVAIL7  BANDAVAIL8  BANDAVAIL9  BANDAVAIL10  RAMPDOWNRATE  RAMPUPRATE
-        0     ADPBA1G      ENERGY      None       6.0            6.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0         120.0       120.0
-        1     ADPBA1G    LOWERREG      None       6.0            0.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           0.0         0.0
-        2     ADPBA1G   RAISE5MIN      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
-        3     ADPBA1G    RAISEREG      None       6.0            0.0            6.0            0.0             0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           0.0         0.0
-        4     ADPBA1G  RAISE60SEC      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
+        0     ADPBA1G      ENERGY      None       6.0            NaN            NaN            NaN             NaN         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0         120.0       120.0
+        1     ADPBA1G    LOWERREG      None       6.0            0.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           NaN         NaN
+        2     ADPBA1G   RAISE5MIN      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
+        3     ADPBA1G    RAISEREG      None       6.0            0.0            6.0            0.0             0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           NaN         NaN
+        4     ADPBA1G  RAISE60SEC      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
         ...       ...         ...       ...       ...            ...            ...            ...             ...         ...         ...         ...         ...         ...         ...         ...         ...         ...          ...           ...         ...
-        1725    YWPS4   LOWER6SEC      None       0.0          250.0          385.0          275.0           385.0        15.0        10.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
-        1726    YWPS4   RAISE5MIN      None       0.0          250.0          390.0          250.0           380.0         0.0         0.0         0.0         0.0         5.0         0.0         0.0         5.0         0.0         10.0          10.0        10.0
-        1727    YWPS4    RAISEREG      None       0.0          250.0          385.0          250.0           370.0         0.0         0.0         0.0         0.0         0.0         0.0         5.0        10.0         0.0          5.0           5.0         5.0
-        1728    YWPS4  RAISE60SEC      None       0.0          220.0          400.0          220.0           390.0         0.0         0.0         0.0         0.0         0.0         5.0         5.0         0.0         0.0         10.0          10.0        10.0
-        1729    YWPS4   RAISE6SEC      None       0.0          220.0          405.0          220.0           390.0         0.0         0.0         0.0         5.0         5.0         5.0         5.0         0.0         0.0          5.0           5.0         5.0
+        1725    YWPS4   LOWER6SEC      None       0.0          250.0          385.0          275.0           385.0        15.0        10.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
+        1726    YWPS4   RAISE5MIN      None       0.0          250.0          390.0          250.0           380.0         0.0         0.0         0.0         0.0         5.0         0.0         0.0         5.0         0.0         10.0           NaN         NaN
+        1727    YWPS4    RAISEREG      None       0.0          250.0          385.0          250.0           370.0         0.0         0.0         0.0         0.0         0.0         0.0         5.0        10.0         0.0          5.0           NaN         NaN
+        1728    YWPS4  RAISE60SEC      None       0.0          220.0          400.0          220.0           390.0         0.0         0.0         0.0         0.0         0.0         5.0         5.0         0.0         0.0         10.0           NaN         NaN
+        1729    YWPS4   RAISE6SEC      None       0.0          220.0          405.0          220.0           390.0         0.0         0.0         0.0         5.0         5.0         5.0         5.0         0.0         0.0          5.0           NaN         NaN
         <BLANKLINE>
         [1730 rows x 20 columns]
 
@@ -439,6 +439,10 @@ class XMLCacheManager:
                         value = float(trade[aemo_name])
                 elif aemo_name == '@Direction':
                     value = 'missing'
+                elif aemo_name.startswith('@BandAvail'):
+                    value = 0.0
+                else:
+                    value = np.nan
                 trades_by_unit_and_type[our_name].append(value)
             return trades_by_unit_and_type
 
-- 
2.43.0


From e5e25c0b4768bd880a54462273ee59a3e06556b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:22 +0000
Subject: [PATCH 23/35] fix: a price band absent from the XML file is not given
 a direction as its price

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 6771221..388527f 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -529,7 +529,7 @@ class XMLCacheManager:
                         value = trade[aemo_name]
                     else:
                         value = float(trade[aemo_name])
-                elif '@Direction' not in trade:
+                elif aemo_name == '@Direction':
                     if trader['@TraderType'] in ["GENERATOR", "NORMALLY_ON_LOAD", "WDR", "BIDIRECTIONAL"]:
                         value = "GEN"
                     elif trader['@TraderType'] in ["LOAD"]:
-- 
2.43.0


From 654cea6888dd04038d38a204c203e8cb17604867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:22 +0000
Subject: [PATCH 24/35] fix: service prices of an intervention interval are
 those of the pricing run only

---
 src/nempy/historical_inputs/xml_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 388527f..01639e0 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1169,6 +1169,8 @@ class XMLCacheManager:
         prices = dict(region=[], service=[], price=[])
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
         for region in regions:
+            if region.get('@Intervention', '0') != '0':
+                continue
             for xml_service, mms_service in service_type_map.items():
                 if xml_service in region:
                     prices['region'].append(region['@RegionID'])
-- 
2.43.0


From a2a5350c069824fa9cf1aafe14d482400ecd6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:30 +0000
Subject: [PATCH 25/35] fix: EXLEZ applies its multiplier whether or not the
 elements are exchanged

---
 src/nempy/historical_inputs/rhs_calculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..07eb739 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -646,6 +646,9 @@ def _rpn_stack(equation):
             elif term['@Operation'] == 'EXLEZ' and term['@SpdType'] == 'U' and pop_flag:
                 stack = _exchange_if_less_than_zero(stack, term)
                 pop_flag = False
+            elif term['@Operation'] == 'EXLEZ' and term['@SpdType'] == 'U':
+                # Without the exchange the multiplier still applies to the top element of the stack.
+                stack[0] = stack[0] * float(term['@Multiplier'])
     return stack
 
 
-- 
2.43.0


From 22b9347b46e90d6870330d7005e5250043d99104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:30 +0000
Subject: [PATCH 26/35] fix: right hand side terms without a value use their
 default whatever their operator

---
 src/nempy/historical_inputs/rhs_calculator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 07eb739..2b4323a 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -472,7 +472,8 @@ class RHSCalc:
         if term['@SpdType'] == 'C':
             value = None
         elif term['@SpdType'] in ['A', 'S', 'R', 'I', 'W']:
-            scadas = self.scada_data[term['@SpdType']][term['@SpdID']]
+            scadas = self.scada_data.get(term['@SpdType'], {}).get(term['@SpdID'], [])
+            value = None
             if len(scadas) > 0:
                 value = 0
                 for scada in scadas:
@@ -671,6 +672,8 @@ def _no_operator(stack, term):
         stack.insert(0, 0.0)
     if '@Value' in term:
         stack[0] += float(term['@Multiplier']) * float(term['@Value'])
+    elif term['@SpdType'] != 'C' and '@Default' in term:
+        stack[0] += float(term['@Multiplier']) * float(term['@Default'])
     else:
         stack[0] += float(term['@Multiplier'])
     return stack
@@ -720,7 +723,7 @@ def _square(stack, term):
         if term['@SpdType'] == 'C':
             stack[0] += float(term['@Multiplier']) ** 2
         else:
-            stack[0] += float(term['@Value']) ** 2 * float(term['@Multiplier'])
+            stack[0] += float(_get_default_if_needed(term)) ** 2 * float(term['@Multiplier'])
     return stack
 
 
@@ -735,7 +738,7 @@ def _cube(stack, term):
         if term['@SpdType'] == 'C':
             stack[0] += float(term['@Multiplier']) ** 3
         else:
-            stack[0] += float(term['@Value']) ** 3 * float(term['@Multiplier'])
+            stack[0] += float(_get_default_if_needed(term)) ** 3 * float(term['@Multiplier'])
     return stack
 
 
@@ -750,7 +753,7 @@ def _sqrt(stack, term):
         if term['@SpdType'] == 'C':
             stack[0] += float(term['@Multiplier']) ** 0.5
         else:
-            stack[0] += float(term['@Value']) ** 0.5 * float(term['@Multiplier'])
+            stack[0] += float(_get_default_if_needed(term)) ** 0.5 * float(term['@Multiplier'])
     return stack
 
 
@@ -765,7 +768,7 @@ def _absolute_value(stack, term):
         if term['@SpdType'] == 'C':
             stack[0] += abs(float(term['@Multiplier']))
         else:
-            stack[0] += abs(float(term['@Value'])) * float(term['@Multiplier'])
+            stack[0] += abs(float(_get_default_if_needed(term))) * float(term['@Multiplier'])
     return stack
 
 
@@ -780,7 +783,7 @@ def _negation(stack, term):
         if term['@SpdType'] == 'C':
             stack[0] += -1.0 * float(term['@Multiplier'])
         else:
-            stack[0] += -1.0 * float(term['@Value']) * float(term['@Multiplier'])
+            stack[0] += -1.0 * float(_get_default_if_needed(term)) * float(term['@Multiplier'])
     return stack
 
 
@@ -1008,7 +1011,7 @@ def _stack_pop(stack, term):
     else:
         # If the POP operator is given and the term is not of type U the top element of the stack is not removed. If
         # the term value is less than zero then the POP flag is set to true.
-        if float(term['@Value']) <= 0.0:
+        if float(_get_default_if_needed(term)) <= 0.0:
             pop_flag = True
         else:
             pop_flag = False
-- 
2.43.0


From 4d327edfed74479c8b9e21515a696fe426c15312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:20 +0000
Subject: [PATCH 27/35] fix: a group inside another group keeps its value

---
 src/nempy/historical_inputs/rhs_calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 2b4323a..37f952e 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -448,6 +448,8 @@ class RHSCalc:
         equation: list[dict] a rhs or generic equation with values for each term, if the term is a type that has an
             associated value.
         """
+        # Values of groups are left over from earlier evaluations of the equation.
+        equation = _clear_group_values(equation)
         for term in equation:
             value = self._resolve_term_value(term)
             if value is not None:
@@ -541,7 +543,6 @@ def _rpn_stack(equation):
     ignore_groups = []  # Once groups have been calculated they are added to list to be ignored so they aren't processed
     # again
     pop_flag = False
-    _clear_group_values(equation)
     for i, term in enumerate(equation):
 
         if (term['@SpdType'] == 'G' and '@Value' not in term and
-- 
2.43.0


From a23fb6557737b1e5fedad695ebe360446807c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:24 +0000
Subject: [PATCH 28/35] fix: constraints depending on a value are listed once
 and found through nested functions

---
 src/nempy/historical_inputs/rhs_calculator.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 37f952e..7723a6b 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -381,20 +381,25 @@ class RHSCalc:
         -------
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
+        def depends(equation):
+            return any((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                       (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X')
+                       for term in equation)
+
+        # Generic equations can reference other generic equations, so search until no further ones are found.
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
-            for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
+        searching = True
+        while searching:
+            searching = False
+            for equation_id, equation in self.generic_equations.items():
+                if equation_id not in dependent_generic_equations and depends(equation):
                     dependent_generic_equations.append(equation_id)
+                    searching = True
 
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
-            for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
-                    dependent_rhs_equations.append(equation_id)
+            if equation_id not in dependent_rhs_equations and depends(equation):
+                dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
 
-- 
2.43.0


From efd477883b183aff21154dace6d9e077af8eba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:49 +0000
Subject: [PATCH 29/35] fix: time spent in fast start mode zero does not count
 towards mode one

---
 src/nempy/historical_inputs/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 7ced716..fb18aae 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -456,6 +456,9 @@ class UnitData:
                                    (fsp['dispatch'] > 0.0), 1,
                                    fsp['current_mode'])
 
+        # Time spent in mode zero does not count towards mode one.
+        fsp['temp_time_in_current_mode'] = np.where((fsp['current_mode'] == 0), 0, fsp['temp_time_in_current_mode'])
+
         # Move units from mode one to mode two
         # If the time left in the mode is less than 5 minutes than progress to next mode
         mask = (fsp['temp_current_mode'] == 1) & (fsp['mode_one_length'] - fsp['temp_time_in_current_mode'] <
-- 
2.43.0


From 541ad30250726259e2d151a3a37e5f6dfce54d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:41 +0000
Subject: [PATCH 30/35] fix: process bids of intervals without semi-scheduled
 units

---
 src/nempy/historical_inputs/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index fb18aae..ce7c9cd 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -1508,15 +1508,15 @@ def _scaling_for_uigf(BIDPEROFFER_D, ugif_values):
     fcas_semi_scheduled = fcas_bids[fcas_bids['DUID'].isin(semi_scheduled_units)]
     fcas_not_semi_scheduled = fcas_bids[~fcas_bids['DUID'].isin(semi_scheduled_units)]
 
-    fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
-                                   'inner', on='DUID')
-
     def get_new_high_break_point(availability, high_break_point, enablement_max):
         if enablement_max > availability:
             high_break_point = high_break_point - (enablement_max - availability)
         return high_break_point
 
     if not fcas_semi_scheduled.empty:
+        fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
+                                       'inner', on='DUID')
+
         # Scale high break points.
         fcas_semi_scheduled['HIGHBREAKPOINT'] = \
             fcas_semi_scheduled.apply(lambda x: get_new_high_break_point(x['UIGF'], x['HIGHBREAKPOINT'],
-- 
2.43.0


From 13c906f7f03b262743f12eaf5ff196401ef2920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:41 +0000
Subject: [PATCH 31/35] fix: regulation offers of units without AGC enablement
 limits are kept unscaled

---
 src/nempy/historical_inputs/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index ce7c9cd..3369d90 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -1239,9 +1239,9 @@ def _scaling_for_agc_enablement_limits(BIDPEROFFER_D, DISPATCHLOAD):
 
     # Merge in AGC enablement values from dispatch load so they can be compared to offer values.
     lower_reg = pd.merge(lower_reg, DISPATCHLOAD.loc[:, ['DUID', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN']],
-                         'inner', on='DUID')
+                         'left', on='DUID')
     raise_reg = pd.merge(raise_reg, DISPATCHLOAD.loc[:, ['DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN']],
-                         'inner', on='DUID')
+                         'left', on='DUID')
 
     # Scale lower reg lower trapezium slope.
     lower_reg['LOWBREAKPOINT'] = np.where((lower_reg['LOWERREGENABLEMENTMIN'] > lower_reg['ENABLEMENTMIN']) &
-- 
2.43.0


From 56cf4626a0b1ad4e0ebd5d5cb20e903ff631e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:41 +0000
Subject: [PATCH 32/35] fix: FCAS trapeziums are given for the units that bids
 are given for

---
 src/nempy/historical_inputs/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 3369d90..01579d6 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -680,6 +680,8 @@ class UnitData:
         BIDPEROFFER_D = _scaling_for_uigf(BIDPEROFFER_D, self.uigf_values)
         self.BIDPEROFFER_D, BIDDAYOFFER_D = _enforce_preconditions_for_enabling_fcas(
             BIDPEROFFER_D, BIDDAYOFFER_D, initial_conditions, unit_availability)
+        # The FCAS trapeziums are based on these bids too.
+        self.BIDPEROFFER_D = self.BIDPEROFFER_D[self.BIDPEROFFER_D['DUID'].isin(list(unit_info['unit']))]
 
         volume_bids = _format_volume_bids(self.BIDPEROFFER_D, self.service_name_mapping)
         price_bids = _format_price_bids(BIDDAYOFFER_D, self.service_name_mapping)
-- 
2.43.0


From de11df9c306166bc8f4fcda13aaa9a55d2981202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:52 +0000
Subject: [PATCH 33/35] fix: interconnector definitions of intervals without
 market interconnectors

---
 src/nempy/historical_inputs/interconnectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/interconnectors.py b/src/nempy/historical_inputs/interconnectors.py
index 6e5097c..59892f9 100644
--- a/src/nempy/historical_inputs/interconnectors.py
+++ b/src/nempy/historical_inputs/interconnectors.py
@@ -270,6 +270,8 @@ class InterconnectorData:
 
     def _get_market_interconnector_links(self):
         mnsp_bids = self.raw_input_loader.get_market_interconnector_link_bid_availability()
+        # Without any market interconnectors the key columns would be read as numeric, and could not be merged on.
+        mnsp_bids = mnsp_bids.astype({'interconnector': object, 'to_region': object})
         MNSP_INTERCONNECTOR = self.raw_input_loader.get_market_interconnectors()
         mnsp_transmission_loss_factors = _format_mnsp_transmission_loss_factors(MNSP_INTERCONNECTOR,
                                                                                 self.INTERCONNECTORCONSTRAINT)
-- 
2.43.0


From a5ba538ad2f4fcbb827257a3437ea912fae43748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:15 +0000
Subject: [PATCH 34/35] fix: price regions joined by a link pair that carries
 no flow as connected

With no flow on either link both were disabled in the pricing run, so the regions were priced as if
they were separated although either link could serve a change in demand.
---
 src/nempy/markets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 6ddd9f9..c2506c7 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3204,6 +3204,9 @@ class SpotMarket:
     def _disable_unused_link_pair(self, si):
         inter_vars = self._decision_variables['interconnectors']
         inter_vars = inter_vars[inter_vars['interconnector'] != inter_vars['link']]
+        # Where no link carries flow, either could serve a change in demand, so none is disabled.
+        interconnectors_used = inter_vars.loc[inter_vars['value'] != 0.0, 'interconnector']
+        inter_vars = inter_vars[inter_vars['interconnector'].isin(interconnectors_used)]
         inter_vars_unused = inter_vars[inter_vars['value'] == 0.0]
         si.disable_variables(inter_vars_unused)
 
-- 
2.43.0


From 22c67e7efb761b3aa07140c8649e2d019be305f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:49 +0000
Subject: [PATCH 35/35] fix: price markets with link pairs but no losses with
 the unused link disabled

The pricing run only disabled the unused link of a pair when interconnector losses were set; without
them both links stayed open and prices could come from flow going both ways.
---
 src/nempy/markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c2506c7..1bc1242 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3123,7 +3123,7 @@ class SpotMarket:
 
         # Models with interconnectors use binary variables, the model needs to be linearised to allow for shadow prices
         # to be accessed and used to price constraints.
-        if 'interconnector_losses' in self._decision_variables:
+        if 'interconnectors' in self._decision_variables:
             si = self._get_linear_model(si)
         si.linear_mip_model.optimize()
 
@@ -3197,7 +3197,8 @@ class SpotMarket:
         self.objective_value = si.mip_model.objective_value
 
     def _get_linear_model(self, si):
-        self._remove_unused_interpolation_weights(si)
+        if 'interpolation_weights' in self._decision_variables:
+            self._remove_unused_interpolation_weights(si)
         self._disable_unused_link_pair(si)
         return si
 
-- 
2.43.0

