From cf6ab995281f30e84891ce5e5cfef6c78f27927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:53 +0000
Subject: [PATCH 01/24] fix: keep id counters valid when a market feature adds
 no rows

max() of an empty id column raised ValueError (or gave NaN ids) for markets
with only bidirectional units, no remaining ramping units, empty tables etc.
---
 src/nempy/help_functions/helper_functions.py  |  5 ++
 src/nempy/markets.py                          | 55 ++++++++++---------
 .../spot_market_backend/fcas_constraints.py   |  4 +-
 3 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/nempy/help_functions/helper_functions.py b/src/nempy/help_functions/helper_functions.py
index 3be2e3d..4f01404 100644
--- a/src/nempy/help_functions/helper_functions.py
+++ b/src/nempy/help_functions/helper_functions.py
@@ -14,6 +14,11 @@ def save_index(dataframe, new_col_name, offset=0):
     return dataframe
 
 
+def next_id(ids, current_id):
+    # The first id not yet in use after rows with the given ids have been added, unchanged if no rows were added.
+    return current_id if len(ids) == 0 else max(ids) + 1
+
+
 def max_constraint_index(newest_variable_data):
     # Find the maximum constraint index already in use in the constraint matrix.
     max_index = newest_variable_data['ROWINDEX'].max()
diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..8880c4d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -264,7 +264,7 @@ class SpotMarket:
 
         self._variable_to_constraint_map['regional']['bids'] = variable_to_regional_constraint_map
         self._variable_to_constraint_map['unit_level']['bids'] = variable_to_unit_level_constraint_map
-        self._next_variable_id = max(self._decision_variables['bids']['variable_id']) + 1
+        self._next_variable_id = hf.next_id(self._decision_variables['bids']['variable_id'], self._next_variable_id)
 
     def _validate_volume_bids(self, volume_bids):
         schema = dv.DataFrameSchema(name='volume_bids', primary_keys=['unit', 'service', 'dispatch_type'])
@@ -526,7 +526,7 @@ class SpotMarket:
         )
         self._constraints_rhs_and_type['unit_bid_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('unit_bid_capacity', violation_cost)
@@ -637,7 +637,7 @@ class SpotMarket:
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('uigf_capacity', violation_cost)
@@ -850,13 +850,13 @@ class SpotMarket:
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if not bidirectional_unit_ramp_details.empty:
 
@@ -864,13 +864,13 @@ class SpotMarket:
                 bidirectional_unit_ramp_details, 'up', self._next_constraint_id, self.dispatch_interval)
             self._constraints_rhs_and_type['bidirectional_ramp_up'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['bidirectional_ramp_up'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
             rhs_and_type, variable_map = rrp._bidirectional_ramp_constraints(
                 bidirectional_unit_ramp_details, 'down', self._next_constraint_id, self.dispatch_interval)
             self._constraints_rhs_and_type['bidirectional_ramp_down'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['bidirectional_ramp_down'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('ramp_up', violation_cost)
@@ -1033,7 +1033,7 @@ class SpotMarket:
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
             if violation_cost is not None:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
@@ -1139,7 +1139,7 @@ class SpotMarket:
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
         self._market_constraints_rhs_and_type['demand'] = rhs_and_type
         self._constraint_to_variable_map['regional']['demand'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('demand', violation_cost)
@@ -1244,7 +1244,7 @@ class SpotMarket:
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('fcas', violation_cost)
@@ -1343,7 +1343,7 @@ class SpotMarket:
                                                                             self._next_constraint_id)
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('fcas_max_availability', violation_cost)
@@ -1547,7 +1547,7 @@ class SpotMarket:
                     ramp_up_rates_for_raise_reg, self.dispatch_interval, self._next_constraint_id)
             self._constraints_rhs_and_type['joint_ramping_raise_reg'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['joint_ramping_raise_reg'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if not ramp_up_rates_for_raise_reg_bdu.empty:
             ramp_up_rates_for_raise_reg_bdu = \
@@ -1557,7 +1557,7 @@ class SpotMarket:
                     ramp_up_rates_for_raise_reg_bdu, self.dispatch_interval, self._next_constraint_id)
             self._constraints_rhs_and_type['joint_ramping_raise_reg_bdu'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['joint_ramping_raise_reg_bdu'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         ramp_down_rates_for_lower_reg = pd.merge(
             lower_reg_units,
@@ -1580,7 +1580,7 @@ class SpotMarket:
                     ramp_down_rates_for_lower_reg, self.dispatch_interval, self._next_constraint_id)
             self._constraints_rhs_and_type['joint_ramping_lower_reg'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['joint_ramping_lower_reg'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if not ramp_down_rates_for_lower_reg_bdu.empty:
             ramp_down_rates_for_lower_reg_bdu = \
@@ -1590,7 +1590,7 @@ class SpotMarket:
                     ramp_down_rates_for_lower_reg_bdu, self.dispatch_interval, self._next_constraint_id)
             self._constraints_rhs_and_type['joint_ramping_lower_reg_bdu'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['joint_ramping_lower_reg_bdu'] = variable_map
-            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
@@ -1724,7 +1724,7 @@ class SpotMarket:
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('joint_capacity', violation_cost)
@@ -1863,7 +1863,7 @@ class SpotMarket:
             )
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('energy_and_regulation_capacity', violation_cost)
@@ -1998,7 +1998,8 @@ class SpotMarket:
         self._decision_variables['interconnectors'], self._variable_to_constraint_map['regional']['interconnectors'] \
             = inter.create(interconnector_directions_and_limits, self._next_variable_id)
 
-        self._next_variable_id = max(self._decision_variables['interconnectors']['variable_id']) + 1
+        self._next_variable_id = hf.next_id(self._decision_variables['interconnectors']['variable_id'],
+                                            self._next_variable_id)
 
     def _validate_interconnector_definitions(self, interconnector_directions_and_limits):
         schema = dv.DataFrameSchema(name='interconnector_directions_and_limits',
@@ -2226,20 +2227,20 @@ class SpotMarket:
                                         loss_functions,
                                         self._next_variable_id)
 
-        next_variable_id = loss_variables['variable_id'].max() + 1
+        next_variable_id = hf.next_id(loss_variables['variable_id'], self._next_variable_id)
 
         weight_variables = inter.create_weights(interpolation_break_points, next_variable_id)
 
         # Creates weights sum constraint.
         weights_sum_lhs, weights_sum_rhs = inter.create_weights_must_sum_to_one(weight_variables,
                                                                                 self._next_constraint_id)
-        next_constraint_id = weights_sum_rhs['constraint_id'].max() + 1
+        next_constraint_id = hf.next_id(weights_sum_rhs['constraint_id'], self._next_constraint_id)
 
         # Link the losses to the interpolation weights.
         link_to_loss_lhs, link_to_loss_rhs = \
             inter.link_inter_loss_to_interpolation_weights(weight_variables, loss_variables, loss_functions,
                                                            next_constraint_id)
-        next_constraint_id = link_to_loss_rhs['constraint_id'].max() + 1
+        next_constraint_id = hf.next_id(link_to_loss_rhs['constraint_id'], next_constraint_id)
 
         # Link weights to interconnector flow.
         link_to_flow_lhs, link_to_flow_rhs = inter.link_weights_to_inter_flow(weight_variables,
@@ -2260,8 +2261,10 @@ class SpotMarket:
         self._lhs_coefficients['interconnector_losses'] = lhs
         self._constraints_rhs_and_type['interpolation_weights'] = weights_sum_rhs
         self._constraints_dynamic_rhs_and_type['link_loss_to_flow'] = dynamic_rhs
-        self._next_variable_id = pd.concat([loss_variables, weight_variables])['variable_id'].max() + 1
-        self._next_constraint_id = pd.concat([weights_sum_rhs, dynamic_rhs])['constraint_id'].max() + 1
+        self._next_variable_id = hf.next_id(pd.concat([loss_variables, weight_variables])['variable_id'],
+                                            self._next_variable_id)
+        self._next_constraint_id = hf.next_id(pd.concat([weights_sum_rhs, dynamic_rhs])['constraint_id'],
+                                              self._next_constraint_id)
 
     @staticmethod
     def _validate_loss_functions(loss_functions):
@@ -2357,7 +2360,7 @@ class SpotMarket:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
-        self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
+        self._next_constraint_id = hf.next_id(type_and_rhs['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
@@ -2739,7 +2742,7 @@ class SpotMarket:
             self._objective_function_components[constraints_key + '_deficit'] = \
                 deficit_variables.loc[:, ['variable_id', 'cost']]
             self._lhs_coefficients[constraints_key + '_deficit'] = lhs
-            self._next_variable_id = max(deficit_variables['variable_id']) + 1
+            self._next_variable_id = hf.next_id(deficit_variables['variable_id'], self._next_variable_id)
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
@@ -2849,7 +2852,7 @@ class SpotMarket:
 
         self._lhs_coefficients['tie_break'] = lhs
         self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
+        self._next_constraint_id = hf.next_id(rhs['constraint_id'], self._next_constraint_id)
         self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..58ad765 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -220,7 +220,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
 
     # Create each constraint set.
     constraints_upper_slope = hf.save_index(contingency_trapeziums, 'constraint_id', next_constraint_id)
-    next_constraint_id = max(constraints_upper_slope['constraint_id']) + 1
+    next_constraint_id = hf.next_id(constraints_upper_slope['constraint_id'], next_constraint_id)
     constraints_lower_slope = hf.save_index(contingency_trapeziums, 'constraint_id', next_constraint_id)
 
     # Calculate the slope coefficients for the constraints.
@@ -413,7 +413,7 @@ def energy_and_regulation_capacity_constraints(regulation_trapeziums, next_const
 
     # Create each constraint set.
     constraints_upper_slope = hf.save_index(regulation_trapeziums, 'constraint_id', next_constraint_id)
-    next_constraint_id = max(constraints_upper_slope['constraint_id']) + 1
+    next_constraint_id = hf.next_id(constraints_upper_slope['constraint_id'], next_constraint_id)
     constraints_lower_slope = hf.save_index(regulation_trapeziums, 'constraint_id', next_constraint_id)
 
     # Calculate the slope coefficients for the constraints.
-- 
2.43.0


From 4eb5a983dc9e4e6a51876f1261c1f95b627317d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:09 +0000
Subject: [PATCH 02/24] fix: accept constraints whose left hand sides are all
 empty

---
 src/nempy/spot_market_backend/solver_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..d874f4c 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -220,7 +220,7 @@ class InterfaceToSolver:
         enq_type = dict(zip(constraints_type_and_rhs['constraint_id'], constraints_type_and_rhs['type']))
         var_ids = constraints_lhs['variable_id'].to_numpy()
         vars = np.asarray(
-            [self.variables[k] if k in self.variables.keys() else None for k in range(0, max(var_ids) + 1)])
+            [self.variables[k] if k in self.variables.keys() else None for k in range(0, max(var_ids, default=-1) + 1)])
         coefficients = constraints_lhs['coefficient'].to_numpy()
         for row_id, row in rows.indices.items():
             # Use the variable_ids to get mip variable objects present in the constraints
-- 
2.43.0


From ee92f873a4a6e72235519d47781178c346f50d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 03/24] fix: tie break every pair of equally priced bids once

The name used to drop mirrored pairs was the same for different pairs (e.g. band 1 of A and band 2 of B, band 2 of A
and band 1 of B), so some ties were lost, and an error was raised when there were no ties.
---
 src/nempy/markets.py                            |  2 +-
 .../spot_market_backend/unit_constraints.py     | 17 ++++-------------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 8880c4d..f8e70eb 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2845,7 +2845,7 @@ class SpotMarket:
 
         price_bids = self._objective_function_components['bids']
         bid_decision_variables = self._decision_variables['bids']
-        unit_regions = self._unit_info.loc[:, ['unit', 'region']]
+        unit_regions = self._unit_info.loc[:, ['unit', 'dispatch_type', 'region']]
 
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..7ae0949 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -561,21 +561,12 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     energy_price_bids = pd.merge(energy_price_bids,
                                  bid_decision_variables.loc[:, ['variable_id', 'upper_bound']],
                                  on='variable_id')
-    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']], on='unit')
+    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'dispatch_type', 'region']],
+                                 on=['unit', 'dispatch_type'])
 
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
-    constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
-
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Keep each pair of bids from different units just once.
+    constraints = constraints[constraints['unit_x'] < constraints['unit_y']]
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 81d16b9cc2f1d7fb1b9e1b02a45e593144303c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 04/24] fix: only make the joint ramping constraints that exist
 elastic

Setting a violation cost raised an error when no unit offered one of raise and lower regulation.
---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index f8e70eb..5fb8364 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1593,8 +1593,10 @@ class SpotMarket:
             self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From 9f08c03f6ecae49d208aca8e7c368341bf38e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:56 +0000
Subject: [PATCH 05/24] fix: raise the errors for missing interconnectors and
 invalid violation costs

The exceptions were created but not raised.
---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 5fb8364..63c5b86 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2205,7 +2205,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2735,7 +2735,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
-- 
2.43.0


From b1e2498b9e7b20abd6a757d0dc5568b1a60470de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:03 +0000
Subject: [PATCH 06/24] fix: transmission losses of links flowing towards their
 from_region

With a negative flow the losses of the region receiving the flow were reported with the wrong sign.
---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 63c5b86..c234b6b 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3663,7 +3663,7 @@ class SpotMarket:
 
         def calc_losses(direction, flow, loss_factor):
             if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
-                losses = flow * (1 - loss_factor)
+                losses = abs(flow) * (1 - loss_factor)
             elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
                 losses = abs(flow) - (abs(flow) / loss_factor)
             return losses
-- 
2.43.0


From 8fb25a5a3f0af32aef6eb12ab204c74097cda43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:10 +0000
Subject: [PATCH 07/24] fix: lower slope coefficient of regulation from the
 load side of bidirectional units

Regulation enablement that moves the unit away from its enablement minimum was assumed for the load side, instead of
towards it as for the generator side.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 58ad765..9433511 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From fa1e5ac89ea909c70b2e5220b732b3a583685ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 08/24] fix: regulation trapeziums are only validated when
 input validation is on

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c234b6b..8ef8fe6 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1856,7 +1856,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
-        if variable_ids:
+        if self.validate_inputs:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
             fcas_constraints.energy_and_regulation_capacity_constraints(
-- 
2.43.0


From cb7dfe9dc3511b35c7187345d66a65a551f509c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:16 +0000
Subject: [PATCH 09/24] fix: setting fast start, ramp rate or joint ramping
 constraints again replaces the earlier ones

When the later call had nothing to constrain the constraints of the earlier call stayed in the model.
---
 src/nempy/markets.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 8ef8fe6..d3750a9 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -858,6 +858,8 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_unit_constraints('bidirectional_ramp_up')
+        self._remove_unit_constraints('bidirectional_ramp_down')
         if not bidirectional_unit_ramp_details.empty:
 
             rhs_and_type, variable_map = rrp._bidirectional_ramp_constraints(
@@ -1030,6 +1032,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self.remove_fast_start_constraints()
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1038,13 +1041,16 @@ class SpotMarket:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
     def remove_fast_start_constraints(self):
-        if 'fast_start' in self._constraints_rhs_and_type:
-            del self._constraints_rhs_and_type['fast_start']
-            del self._constraint_to_variable_map['unit_level']['fast_start']
-        if 'fast_start_deficit' in self._decision_variables:
-            del self._decision_variables['fast_start_deficit']
-            del self._objective_function_components['fast_start_deficit']
-            del self._lhs_coefficients['fast_start_deficit']
+        self._remove_unit_constraints('fast_start')
+
+    def _remove_unit_constraints(self, constraints_key):
+        if constraints_key in self._constraints_rhs_and_type:
+            del self._constraints_rhs_and_type[constraints_key]
+            del self._constraint_to_variable_map['unit_level'][constraints_key]
+        if constraints_key + '_deficit' in self._decision_variables:
+            del self._decision_variables[constraints_key + '_deficit']
+            del self._objective_function_components[constraints_key + '_deficit']
+            del self._lhs_coefficients[constraints_key + '_deficit']
 
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
@@ -1508,6 +1514,10 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        for constraints_key in ['joint_ramping_raise_reg', 'joint_ramping_raise_reg_bdu',
+                                'joint_ramping_lower_reg', 'joint_ramping_lower_reg_bdu']:
+            self._remove_unit_constraints(constraints_key)
+
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
-- 
2.43.0


From c97685f6dc2124e9c25331d430b0d9938276f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:21 +0000
Subject: [PATCH 10/24] fix: drop the violation variables of constraints that
 are set again

Setting constraints with a violation cost and then again without one left violation variables referring to
constraints that no longer exist, and dispatch failed.
---
 src/nempy/markets.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index d3750a9..b49a1d8 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -528,6 +528,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('unit_bid_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('unit_bid_capacity', violation_cost)
 
@@ -639,6 +640,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('uigf_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('uigf_capacity', violation_cost)
 
@@ -874,6 +876,8 @@ class SpotMarket:
             self._constraint_to_variable_map['unit_level']['bidirectional_ramp_down'] = variable_map
             self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('ramp_up')
+        self._remove_deficit_variables('ramp_down')
         if violation_cost is not None:
             self.make_constraints_elastic('ramp_up', violation_cost)
             self.make_constraints_elastic('ramp_down', violation_cost)
@@ -1047,6 +1051,9 @@ class SpotMarket:
         if constraints_key in self._constraints_rhs_and_type:
             del self._constraints_rhs_and_type[constraints_key]
             del self._constraint_to_variable_map['unit_level'][constraints_key]
+        self._remove_deficit_variables(constraints_key)
+
+    def _remove_deficit_variables(self, constraints_key):
         if constraints_key + '_deficit' in self._decision_variables:
             del self._decision_variables[constraints_key + '_deficit']
             del self._objective_function_components[constraints_key + '_deficit']
@@ -1147,6 +1154,7 @@ class SpotMarket:
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('demand')
         if violation_cost is not None:
             self.make_constraints_elastic('demand', violation_cost)
 
@@ -1252,6 +1260,7 @@ class SpotMarket:
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('fcas')
         if violation_cost is not None:
             self.make_constraints_elastic('fcas', violation_cost)
 
@@ -1351,6 +1360,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('fcas_max_availability')
         if violation_cost is not None:
             self.make_constraints_elastic('fcas_max_availability', violation_cost)
 
@@ -1738,6 +1748,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('joint_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('joint_capacity', violation_cost)
 
@@ -1877,6 +1888,7 @@ class SpotMarket:
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = hf.next_id(rhs_and_type['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('energy_and_regulation_capacity')
         if violation_cost is not None:
             self.make_constraints_elastic('energy_and_regulation_capacity', violation_cost)
 
@@ -2374,6 +2386,7 @@ class SpotMarket:
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = hf.next_id(type_and_rhs['constraint_id'], self._next_constraint_id)
 
+        self._remove_deficit_variables('generic')
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
 
@@ -2747,6 +2760,7 @@ class SpotMarket:
         else:
             raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
-- 
2.43.0


From 53d8417100933237a379d9478f3905000178b479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:05 +0000
Subject: [PATCH 11/24] fix: leave the tables passed to the market unchanged

Default columns were added to the caller's own tables, e.g. creating a second market with the same unit_info made
dispatch_type compulsory in bids.
---
 src/nempy/markets.py                                | 6 ++++++
 src/nempy/spot_market_backend/fcas_constraints.py   | 2 ++
 src/nempy/spot_market_backend/market_constraints.py | 1 +
 src/nempy/spot_market_backend/objective_function.py | 1 +
 src/nempy/spot_market_backend/unit_constraints.py   | 1 +
 src/nempy/spot_market_backend/variable_ids.py       | 1 +
 6 files changed, 12 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index b49a1d8..fbadd1c 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,7 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -828,6 +829,7 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        ramp_details = ramp_details.copy()
         if "dispatch_type" not in ramp_details.columns:
             ramp_details["dispatch_type"] = "generator"
 
@@ -2005,6 +2007,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if 'link' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
@@ -2229,6 +2232,9 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
+        interpolation_break_points = interpolation_break_points.copy()
+
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 9433511..35810ef 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -215,6 +215,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
 
     """
 
+    contingency_trapeziums = contingency_trapeziums.copy()
     if 'dispatch_type' not in contingency_trapeziums.columns:
         contingency_trapeziums.loc[:, ['dispatch_type']] = 'generator'
 
@@ -408,6 +409,7 @@ def energy_and_regulation_capacity_constraints(regulation_trapeziums, next_const
 
     """
 
+    regulation_trapeziums = regulation_trapeziums.copy()
     if 'dispatch_type' not in regulation_trapeziums.columns:
         regulation_trapeziums.loc[:, ['dispatch_type']] = 'generator'
 
diff --git a/src/nempy/spot_market_backend/market_constraints.py b/src/nempy/spot_market_backend/market_constraints.py
index 6868941..a44a7f9 100644
--- a/src/nempy/spot_market_backend/market_constraints.py
+++ b/src/nempy/spot_market_backend/market_constraints.py
@@ -169,6 +169,7 @@ def fcas(fcas_requirements, next_constraint_id):
         coefficient    the upper bound of the variable, the volume bid (as `np.float64`)
         =============  ==========================================================================
     """
+    fcas_requirements = fcas_requirements.copy()
     # Set default value if optional column is missing.
     if 'type' not in fcas_requirements.columns:
         fcas_requirements['type'] = '='
diff --git a/src/nempy/spot_market_backend/objective_function.py b/src/nempy/spot_market_backend/objective_function.py
index 4771380..84b7a12 100644
--- a/src/nempy/spot_market_backend/objective_function.py
+++ b/src/nempy/spot_market_backend/objective_function.py
@@ -9,6 +9,7 @@ def bids(variable_ids, price_bids):
     This function defines the cost associated with each decision variable that represents a unit's energy bid. Costs are
     with reference to the regional node.
     """
+    price_bids = price_bids.copy()
     # If no service column is provided assume bids are for energy.
     if 'service' not in price_bids.columns:
         price_bids['service'] = 'energy'
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index 7ae0949..0cbf7db 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -497,6 +497,7 @@ def create_fast_start_profile_constraints(fast_start_profiles, next_constraint_i
 
 
 def create_constraints(unit_limits, next_constraint_id, rhs_col, direction):
+    unit_limits = unit_limits.copy()
     # If no service column is present assume the constraints are for the energy service.
     if 'service' not in unit_limits.columns:
         unit_limits['service'] = 'energy'
diff --git a/src/nempy/spot_market_backend/variable_ids.py b/src/nempy/spot_market_backend/variable_ids.py
index 3830998..ac41ba2 100644
--- a/src/nempy/spot_market_backend/variable_ids.py
+++ b/src/nempy/spot_market_backend/variable_ids.py
@@ -125,6 +125,7 @@ def bids(volume_bids, unit_info, next_variable_id, bidirectional_units):
         coefficient    the upper bound of the variable, the volume bid (as `np.float64`)
         =============  =============================================================================
     """
+    volume_bids = volume_bids.copy()
     # If no service column is provided assume bids are for energy.
     if 'service' not in volume_bids.columns:
         volume_bids['service'] = 'energy'
-- 
2.43.0


From 75862bbf2e2b179f8f114f6d563ed9cf770fd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:45 +0000
Subject: [PATCH 12/24] fix: reject price bids that decrease from one band to
 the next

The documented check was never run.
---
 src/nempy/spot_market_backend/dataframe_validator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..ca51e0d 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -31,18 +31,18 @@ class DataFrameSchema:
         if self.primary_keys is not None:
             self._check_for_repeated_rows(df)
 
+        if self.row_monatonic_increasing is not None:
+            self._check_row_monatonic_increasing(df)
+
     def _check_for_repeated_rows(self, df):
         cols_in_df = [col for col in self.primary_keys if col in df.columns]
         if len(df.index) != len(df.drop_duplicates(cols_in_df)):
             raise RepeatedRowError('{} should only have one row for each {}.'.format(self.name, ' '.join(cols_in_df)))
 
     def _check_row_monatonic_increasing(self, df):
-        df = df.loc[:, self.row_monatonic_increasing]
-        df = df.transpose()
-        df.index = pd.to_numeric(df.index)
-        df = df.sort_index()
-        for col in df.columns:
-            if not df[col].is_monotonic:
+        cols_in_df = [col for col in self.row_monatonic_increasing if col in df.columns]
+        for lower, upper in zip(cols_in_df[:-1], cols_in_df[1:]):
+            if (df[lower] > df[upper]).any():
                 raise BidsNotMonotonicIncreasing('Bids of each unit are not monotonic increasing.')
 
 
-- 
2.43.0


From 2a45c3f2469b7e63aa061b58c66defa8c9eba30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 13/24] fix: reject loss shares above one

The documented range of from_region_loss_share was not checked.
---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index fbadd1c..4483c07 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2303,7 +2303,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          not_negative=True, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index ca51e0d..5ec3434 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -62,6 +62,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_in_range(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -92,6 +93,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_in_range(self, series):
+        if self.min is not None and (series < self.min).any():
+            raise ColumnValues("Values below {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and (series > self.max).any():
+            raise ColumnValues("Values above {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 24fbcea545074c2ba70376b8190638ec128b4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:18 +0000
Subject: [PATCH 14/24] fix: limit reported FCAS availability of bidirectional
 units by joint ramping

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 4483c07..40af305 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3816,8 +3816,8 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
-                                'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
-                                'bidirectional_ramp_down']:
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
+                                'energy_and_regulation_capacity', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
                 service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
-- 
2.43.0


From fef6d77d2e8e0dedec10e562492f11af8482c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:48 +0000
Subject: [PATCH 15/24] fix: report missing variables when dispatching a market
 without bids

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 40af305..4b5f1f6 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3019,7 +3019,8 @@ class SpotMarket:
 
         # If there are constraints that have been defined on a regional basis then create the constraints lhs
         # definition by mapping to all the variables that have been defined for the corresponding region and service.
-        if len(self._constraint_to_variable_map['regional']) > 0:
+        if (len(self._constraint_to_variable_map['regional']) > 0 and
+                len(self._variable_to_constraint_map['regional']) > 0):
             constraints = pd.concat(list(self._constraint_to_variable_map['regional'].values()))
             decision_variables = pd.concat(list(self._variable_to_constraint_map['regional'].values()))
             regional_constraints_lhs = solver_interface.create_lhs(constraints, decision_variables,
@@ -3029,7 +3030,8 @@ class SpotMarket:
 
         # If there are constraints that have been defined on a unit basis then create the constraints lhs
         # definition by mapping to all the variables that have been defined for the corresponding unit and service.
-        if len(self._constraint_to_variable_map['unit_level']) > 0:
+        if (len(self._constraint_to_variable_map['unit_level']) > 0 and
+                len(self._variable_to_constraint_map['unit_level']) > 0):
             constraints = pd.concat(list(self._constraint_to_variable_map['unit_level'].values()))
             decision_variables = pd.concat(list(self._variable_to_constraint_map['unit_level'].values()))
             unit_constraints_lhs = solver_interface.create_lhs(
-- 
2.43.0


From 70a7a6e11e76e6bd5ceef81f581d4ac15ef9e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 16/24] fix: report each constraint depending on a value once,
 including through nested generic equations

A constraint with two terms referring to a dependent generic equation was
listed twice, and constraints reaching the value through a generic equation
that refers to another generic equation were left out.
---
 src/nempy/historical_inputs/rhs_calculator.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..156a68b 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -382,18 +382,23 @@ class RHSCalc:
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
-            for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
-                    dependent_generic_equations.append(equation_id)
+        number_found = -1
+        # Generic equations can depend on other generic equations, so search until no more are found.
+        while number_found != len(dependent_generic_equations):
+            number_found = len(dependent_generic_equations)
+            for equation_id, equation in self.generic_equations.items():
+                for term in equation:
+                    if (((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                         (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X')) and
+                            equation_id not in dependent_generic_equations):
+                        dependent_generic_equations.append(equation_id)
 
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
             for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
+                if (((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                     (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X')) and
+                        equation_id not in dependent_rhs_equations):
                     dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
-- 
2.43.0


From 5b9d28ec22fbc43184126bd381072ac6da117748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 17/24] fix: name the over constrained dispatch file only when
 it exists

A Path object is always truthy, so the OCD name was given for every interval
whose file was not in the cache.
---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..3eb1f22 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -153,7 +153,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From 4864f42244ed47ad3fa2c077049d8a28375177ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 18/24] fix: do not fill a missing price band with the bid's
 direction

For a bid without a direction attribute every absent attribute, not just the
direction, was given the direction implied by the unit's type.
---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 3eb1f22..82afe3b 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -526,7 +526,7 @@ class XMLCacheManager:
                         value = trade[aemo_name]
                     else:
                         value = float(trade[aemo_name])
-                elif '@Direction' not in trade:
+                elif aemo_name == '@Direction':
                     if trader['@TraderType'] in ["GENERATOR", "NORMALLY_ON_LOAD", "WDR", "BIDIRECTIONAL"]:
                         value = "GEN"
                     elif trader['@TraderType'] in ["LOAD"]:
-- 
2.43.0


From e4f2012a2baf206d73fdca5e9f1a84f44fcb97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:09 +0000
Subject: [PATCH 19/24] fix: read lower 5 minute prices and return prices as
 numbers

The attribute is L5Price, as for the other contingency services, so lower 5
minute prices were always left out, and prices were strings although
documented as np.float64.
---
 src/nempy/historical_inputs/xml_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 82afe3b..5689157 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1161,7 +1161,7 @@ class XMLCacheManager:
         """
         service_type_map = \
             {'@EnergyPrice': 'ENERGY', '@LRegPrice': 'LOWERREG', '@RRegPrice': 'RAISEREG', '@R5Price': 'RAISE5MIN',
-             '@RL5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
+             '@L5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
              '@L6Price': 'LOWER6SEC', '@R1Price': 'RAISE1SEC', '@L1Price': 'LOWER1SEC'}
         prices = dict(region=[], service=[], price=[])
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
@@ -1170,7 +1170,7 @@ class XMLCacheManager:
                 if xml_service in region:
                     prices['region'].append(region['@RegionID'])
                     prices['service'].append(mms_service)
-                    prices['price'].append(region[xml_service])
+                    prices['price'].append(float(region[xml_service]))
         return pd.DataFrame(prices)
 
 
-- 
2.43.0


From 60b004859132c98ec37a9903e5201938284e2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:17 +0000
Subject: [PATCH 20/24] fix: add a group ending an equation to the stack
 instead of raising IndexError

---
 src/nempy/historical_inputs/rhs_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 156a68b..071e5a2 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -581,7 +581,7 @@ def _rpn_stack(equation):
             group_id = term['@GroupTerm']
             group = _collect_group(equation, group_id)
             group_result = _rpn_calc(group)
-            if equation[i + len(group)]['@SpdType'] == 'G':
+            if i + len(group) < len(equation) and equation[i + len(group)]['@SpdType'] == 'G':
                 equation[i + len(group)]['@Value'] = group_result
             else:
                 stack[0] += group_result
-- 
2.43.0


From 66b508a9b8e7f484fd5e1056870e2621fbd8ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 21/24] fix: download the market day that starts on the end
 date when populating the cache by day

---
 src/nempy/historical_inputs/xml_cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 5689157..5f61e73 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -41,16 +41,18 @@ class XMLCacheManager:
             end_year += 1
         else:
             end_month += 1
+        last_day = datetime(year=end_year, month=end_month, day=1) - timedelta(days=1)
 
         self.populate_by_day(start_year=start_year, start_month=start_month, start_day=1,
-                             end_year=end_year, end_month=end_month, end_day=1, verbose=verbose)
+                             end_year=last_day.year, end_month=last_day.month, end_day=last_day.day, verbose=verbose)
 
     def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end date.
         """
 
-        start = datetime(year=start_year, month=start_month, day=start_day) - timedelta(days=1)
-        end = datetime(year=end_year, month=end_month, day=end_day)
+        # Start from the first interval of each market day, so the market day that starts on the end date is included.
+        start = datetime(year=start_year, month=start_month, day=start_day, hour=4, minute=5) - timedelta(days=1)
+        end = datetime(year=end_year, month=end_month, day=end_day, hour=4, minute=5)
         download_date = start
         while download_date <= end:
             if verbose:
-- 
2.43.0


From e31b30fd218eb1f296e44da67520fd5dc62e57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:41 +0000
Subject: [PATCH 22/24] fix: reject violation cost tables with more than one
 row per set

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 4b5f1f6..e1703e4 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2778,7 +2778,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From 759ec3de2bd3c165c0f11792092840461c55b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 23/24] fix: region dispatch summary keeps regions that have no
 interconnector

---
 src/nempy/markets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e1703e4..01ab82e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3577,12 +3577,13 @@ class SpotMarket:
         if self._interconnectors_in_market():
             interconnector_inflow = self._get_interconnector_inflow_by_region()
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
-            dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
-- 
2.43.0


From 44acbf980efd57db9aea38412d4c265b350bdd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:09 +0000
Subject: [PATCH 24/24] fix: construct_ramp_rate_parameters accepts dispatch
 without the optional service column

---
 src/nempy/time_sequential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..fb796a5 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,9 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = last_interval_dispatch
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0

