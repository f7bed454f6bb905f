From 60f0e57fcd32b0cadd585c057b2cf2de95d97701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:20 +0000
Subject: [PATCH 01/27] fix: tie break constraints for bidirectional units,
 repeated bid bands and markets without tied bids

---
 src/nempy/markets.py                             |  5 +++--
 .../spot_market_backend/unit_constraints.py      | 16 ++++------------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..b2dfddb 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2849,8 +2849,9 @@ class SpotMarket:
 
         self._lhs_coefficients['tie_break'] = lhs
         self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
-        self.make_constraints_elastic('tie_break', violation_cost=cost)
+        if not rhs.empty:
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
+            self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
                  allow_over_constrained_dispatch_re_run=False):
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..c9ecdf2 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -561,21 +561,13 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     energy_price_bids = pd.merge(energy_price_bids,
                                  bid_decision_variables.loc[:, ['variable_id', 'upper_bound']],
                                  on='variable_id')
-    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']], on='unit')
+    energy_price_bids = pd.merge(energy_price_bids, unit_regions.loc[:, ['unit', 'region']].drop_duplicates('unit'),
+                                 on='unit')
 
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
-
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Each pair of bids appears twice in the merge, keep just one row per pair.
+    constraints = constraints[constraints['variable_id_x'] < constraints['variable_id_y']]
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 19402b494df85e2e4c785222b61aec1f4423ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:01 +0000
Subject: [PATCH 02/27] fix: ramp rate constraints when no unit, or only
 bidirectional units, are to be constrained

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index b2dfddb..4cd699e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -850,13 +850,15 @@ class SpotMarket:
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not rhs_and_type.empty:
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not rhs_and_type.empty:
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
-- 
2.43.0


From e57016cb8d9ed7bcaa75fd6573253f15752f9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:15 +0000
Subject: [PATCH 03/27] fix: load side lower regulation of bidirectional units
 in the joint capacity constraint lower slope

---
 src/nempy/spot_market_backend/fcas_constraints.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..6f37f84 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,6 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 85fb0a568fdd2efd8dbc6fd79c80e1b4bda174e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:14 +0000
Subject: [PATCH 04/27] fix: joint ramping constraints with missing ramp rates
 or with only bidirectional regulation providers

---
 src/nempy/markets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 4cd699e..a09e171 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1537,6 +1537,8 @@ class SpotMarket:
         ramp_up_rates_for_raise_reg = \
             ramp_up_rates_for_raise_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_up_rate', 'initial_output']]
         ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg.rename(columns={'ramp_up_rate': 'ramp_rate'})
+        # Units without a telemetered ramp rate are not constrained.
+        ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg.dropna(subset=['ramp_rate'])
 
         ramp_up_rates_for_raise_reg_bdu = ramp_up_rates_for_raise_reg[
             ramp_up_rates_for_raise_reg['unit'].isin(self._bidirectional_units)]
@@ -1552,8 +1554,6 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not ramp_up_rates_for_raise_reg_bdu.empty:
-            ramp_up_rates_for_raise_reg_bdu = \
-                ramp_up_rates_for_raise_reg_bdu[~ramp_up_rates_for_raise_reg_bdu.isna()]
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_raise_reg_bdu(
                     ramp_up_rates_for_raise_reg_bdu, self.dispatch_interval, self._next_constraint_id)
@@ -1570,6 +1570,8 @@ class SpotMarket:
         ramp_down_rates_for_lower_reg = \
             ramp_down_rates_for_lower_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_down_rate', 'initial_output']]
         ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg.rename(columns={'ramp_down_rate': 'ramp_rate'})
+        # Units without a telemetered ramp rate are not constrained.
+        ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg.dropna(subset=['ramp_rate'])
 
         ramp_down_rates_for_lower_reg_bdu = ramp_down_rates_for_lower_reg[
             ramp_down_rates_for_lower_reg['unit'].isin(self._bidirectional_units)]
@@ -1585,8 +1587,6 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not ramp_down_rates_for_lower_reg_bdu.empty:
-            ramp_down_rates_for_lower_reg_bdu = \
-                ramp_down_rates_for_lower_reg_bdu[~ramp_down_rates_for_lower_reg_bdu.isna()]
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_lower_reg_bdu(
                     ramp_down_rates_for_lower_reg_bdu, self.dispatch_interval, self._next_constraint_id)
@@ -1595,8 +1595,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From 906d7085ba83655c46d5ba632a175ec9225764e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 05/27] fix: region dispatch summary covers all regions and its
 transmission losses match the dispatched market

---
 src/nempy/markets.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index a09e171..e56c631 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3545,12 +3545,12 @@ class SpotMarket:
         if self._interconnectors_in_market():
             interconnector_inflow = self._get_interconnector_inflow_by_region()
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
-            dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+        dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
@@ -3662,10 +3662,11 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
+            # The part of the interconnector flow that is not injected into (or is not taken from) a region.
+            if direction == 'to_region':
                 losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            else:
+                losses = -1 * flow * (1 - loss_factor)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From 45340b1ecdee9b027a70523305e35cf39f6f0647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:23 +0000
Subject: [PATCH 06/27] fix: keep the break points that bracket the flow when
 linearising losses for pricing

---
 src/nempy/markets.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e56c631..5685032 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3167,12 +3167,13 @@ class SpotMarket:
                         on=['interconnector', 'link'])
         vars['distance'] = (vars['value'] - vars['break_point']).abs()
 
-        def not_closest_three(df):
-            df = df.sort_values('distance')
-            df = df.iloc[3:, :]
-            return df
+        def not_closest_and_neighbours(df):
+            # Keep the break point closest to the flow and its neighbours, these always bracket the flow.
+            df = df.sort_values('break_point')
+            closest = df['distance'].to_numpy().argmin()
+            return pd.concat([df.iloc[:max(closest - 1, 0), :], df.iloc[closest + 2:, :]])
 
-        vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_closest_three, include_groups=False)
+        vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_closest_and_neighbours, include_groups=False)
         si.disable_variables(vars_to_remove.loc[:, ['variable_id']])
 
     def get_constraint_set_names(self):
-- 
2.43.0


From bb5c3b59e7dd82a0d0534c35aa934f1c11d02d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:23 +0000
Subject: [PATCH 07/27] fix: raise the errors that set_interconnector_losses
 and make_constraints_elastic only constructed

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 5685032..9550b36 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2206,7 +2206,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2734,7 +2734,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
-- 
2.43.0


From c07597b9ea46a42253089f0013d781ed3cf571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:31 +0000
Subject: [PATCH 08/27] fix: do not let solver pre-processing corrupt special
 ordered set solutions (interconnector losses)

---
 src/nempy/spot_market_backend/solver_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..60d4619 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -122,6 +122,8 @@ class InterfaceToSolver:
         sos_variables['vars'] = sos_variables['variable_id'].apply(lambda x: self.variables[x])
         # Break up the sets based on their id and add them to the model separately.
         sos_variables.groupby(sos_id_columns).apply(add_sos_vars, include_groups=False)
+        # The solver's pre-processing can corrupt the solution values of variables in special ordered sets.
+        self.mip_model.preprocess = 0
         # This is a hack to make sure mip knows there are binary constraints.
         self.mip_model.add_var(var_type=BINARY, obj=0.0)
 
@@ -134,6 +136,8 @@ class InterfaceToSolver:
         sos_variables['vars'] = sos_variables['variable_id'].apply(lambda x: self.variables[x])
         # Break up the sets based on their id and add them to the model separately.
         sos_variables.groupby('sos_id').apply(add_sos_vars)
+        # The solver's pre-processing can corrupt the solution values of variables in special ordered sets.
+        self.mip_model.preprocess = 0
         # This is a hack to make mip knows there are binary constraints.
         self.mip_model.add_var(var_type=BINARY, obj=0.0)
 
-- 
2.43.0


From 334ab18b5a799c052f334e6a91f4f0c798477ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:05 +0000
Subject: [PATCH 09/27] fix: re-issuing a constraint setter leaves nothing
 behind from the constraints it replaces

---
 src/nempy/markets.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 9550b36..c40b9e7 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -860,6 +860,8 @@ class SpotMarket:
         if not rhs_and_type.empty:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_unit_level_constraint_set('bidirectional_ramp_up')
+        self._remove_unit_level_constraint_set('bidirectional_ramp_down')
         if not bidirectional_unit_ramp_details.empty:
 
             rhs_and_type, variable_map = rrp._bidirectional_ramp_constraints(
@@ -1030,6 +1032,7 @@ class SpotMarket:
             on=['unit']
         )
 
+        self.remove_fast_start_constraints()
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
         if not rhs_and_type.empty:
@@ -1040,13 +1043,15 @@ class SpotMarket:
                 self.make_constraints_elastic('fast_start', violation_cost)
 
     def remove_fast_start_constraints(self):
-        if 'fast_start' in self._constraints_rhs_and_type:
-            del self._constraints_rhs_and_type['fast_start']
-            del self._constraint_to_variable_map['unit_level']['fast_start']
-        if 'fast_start_deficit' in self._decision_variables:
-            del self._decision_variables['fast_start_deficit']
-            del self._objective_function_components['fast_start_deficit']
-            del self._lhs_coefficients['fast_start_deficit']
+        self._remove_unit_level_constraint_set('fast_start')
+
+    def _remove_unit_level_constraint_set(self, constraints_key):
+        """Remove a set of unit level constraints, and any variables used to make them elastic."""
+        self._constraints_rhs_and_type.pop(constraints_key, None)
+        self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
 
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
@@ -1510,6 +1515,10 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        for constraints_key in ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
+                                'joint_ramping_lower_reg_bdu']:
+            self._remove_unit_level_constraint_set(constraints_key)
+
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
@@ -3037,6 +3046,9 @@ class SpotMarket:
 
         if len(constraints_rhs_and_type) > 0:
             constraints_rhs_and_type = pd.concat(constraints_rhs_and_type)
+            # Drop coefficients left over from constraints that have since been replaced or removed.
+            constraints_lhs = constraints_lhs[
+                constraints_lhs['constraint_id'].isin(constraints_rhs_and_type['constraint_id'])]
             si.add_constraints(constraints_lhs, constraints_rhs_and_type)
 
         # If interconnectors with losses are being used, create special ordered sets for modelling losses.
-- 
2.43.0


From c9e602aa79a4a0463329647da4962016c5dc0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:08 +0000
Subject: [PATCH 10/27] fix: market setters no longer modify, or keep
 references to, the input DataFrames

---
 src/nempy/markets.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c40b9e7..d092f51 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,7 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -260,7 +261,7 @@ class SpotMarket:
         self._validate_bidirectional_unit_inputs(volume_bids, "volume_bids")
 
         self._decision_variables['bids'], variable_to_unit_level_constraint_map, variable_to_regional_constraint_map, = \
-            variable_ids.bids(volume_bids, self._unit_info, self._next_variable_id, self._bidirectional_units)
+            variable_ids.bids(volume_bids.copy(), self._unit_info, self._next_variable_id, self._bidirectional_units)
 
         self._variable_to_constraint_map['regional']['bids'] = variable_to_regional_constraint_map
         self._variable_to_constraint_map['unit_level']['bids'] = variable_to_unit_level_constraint_map
@@ -397,7 +398,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_price_bids(price_bids)
         self._validate_bidirectional_unit_inputs(price_bids, "price_bids")
-        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids)
+        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids.copy())
         energy_objective_function = objective_function.scale_by_loss_factors(energy_objective_function, self._unit_info)
         self._objective_function_components['bids'] = \
             energy_objective_function.loc[:, ['variable_id', 'unit', 'service', 'dispatch_type', 'capacity_band',
@@ -520,7 +521,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
-            unit_limits,
+            unit_limits.copy(),
             self._next_constraint_id,
             self._bidirectional_units
         )
@@ -634,7 +635,7 @@ class SpotMarket:
         """
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
-        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits.copy(), self._next_constraint_id)
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -826,6 +827,7 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        ramp_details = ramp_details.copy()
         if "dispatch_type" not in ramp_details.columns:
             ramp_details["dispatch_type"] = "generator"
 
@@ -1248,7 +1250,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
-        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements.copy(), self._next_constraint_id)
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1346,7 +1348,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
-        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
+        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability.copy(),
                                                                             self._next_constraint_id)
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
@@ -1734,7 +1736,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
-            contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+            contingency_trapeziums.copy(), self._bidirectional_units, self._next_constraint_id)
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1871,7 +1873,7 @@ class SpotMarket:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
             fcas_constraints.energy_and_regulation_capacity_constraints(
-                regulation_trapeziums, self._next_constraint_id
+                regulation_trapeziums.copy(), self._next_constraint_id
 
             )
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
@@ -1994,6 +1996,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if 'link' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
@@ -2217,6 +2220,8 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
+        interpolation_break_points = interpolation_break_points.copy()
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
@@ -2454,7 +2459,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_unit_coefficients(unit_coefficients)
-        self._generic_constraint_lhs['unit'] = unit_coefficients
+        self._generic_constraint_lhs['unit'] = unit_coefficients.copy()
 
     def _validate_generic_unit_coefficients(self, unit_coefficients):
         schema = dv.DataFrameSchema(name='unit_coefficients', primary_keys=['set', 'unit', 'service'])
@@ -2540,7 +2545,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_region_coefficients(region_coefficients)
-        self._generic_constraint_lhs['region'] = region_coefficients
+        self._generic_constraint_lhs['region'] = region_coefficients.copy()
 
     def _validate_generic_region_coefficients(self, region_coefficients):
         schema = dv.DataFrameSchema(name='region_coefficients', primary_keys=['set', 'region', 'service'])
@@ -2617,7 +2622,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_interconnector_coefficients(interconnector_coefficients)
-        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients
+        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients.copy()
 
     def _validate_generic_interconnector_coefficients(self, interconnector_coefficients):
         schema = dv.DataFrameSchema(name='interconnector_coefficients', primary_keys=['set', 'interconnector'])
-- 
2.43.0


From 44a1d0d823e2d7e682360f2dd70dc95ffd2796d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:57 +0000
Subject: [PATCH 11/27] fix: FCAS availability of bidirectional units accounts
 for each side and for their joint ramping limits

---
 src/nempy/markets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index d092f51..e4942bf 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3805,11 +3805,13 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu',
                                 'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
                                 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
-                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
+                service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'dispatch_type', 'service',
+                                                                    'coefficient']]
                 constraint_slack = self._constraints_rhs_and_type[constraint_type].loc[:, ['constraint_id', 'slack',
                                                                                            'type']]
                 slack_temp = pd.merge(service_coefficients, constraint_slack, on='constraint_id')
@@ -3822,12 +3824,13 @@ class SpotMarket:
                      ((fcas_variable_slack['coefficient'] < 0.00001) & (fcas_variable_slack['coefficient'] > -0.00001)),
                      np.inf, fcas_variable_slack['slack'].abs() / fcas_variable_slack['coefficient'].abs())
         fcas_variable_slack = \
-            fcas_variable_slack.groupby(['unit', 'service'], as_index=False).aggregate({'service_slack': 'min'})
+            fcas_variable_slack.groupby(['unit', 'dispatch_type', 'service'], as_index=False).aggregate(
+                {'service_slack': 'min'})
         fcas_variable_slack = fcas_variable_slack[fcas_variable_slack['service'] != 'energy']
 
         dispatch_levels = self.get_unit_dispatch()
 
-        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'service'])
+        fcas_availability = pd.merge(fcas_variable_slack, dispatch_levels, on=['unit', 'dispatch_type', 'service'])
 
         fcas_availability['availability'] = fcas_availability['dispatch'] + fcas_availability['service_slack']
         return fcas_availability.loc[:, ['unit', 'service', 'availability']]
-- 
2.43.0


From dba7c8d9b509396922d9325caf67b855cc8de9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:37 +0000
Subject: [PATCH 12/27] fix: reject the null capacities, loss shares above one
 and repeated violation costs that are documented as errors

---
 src/nempy/markets.py                                 | 8 ++++----
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e4942bf..2ef7a67 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -537,7 +537,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_limits)
 
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
@@ -646,7 +646,7 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True))
         schema.validate(unit_limits)
 
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
@@ -2288,7 +2288,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          not_negative=True, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
@@ -2761,7 +2761,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..979ac15 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -62,6 +62,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_within_limits(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -92,6 +93,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_within_limits(self, series):
+        if self.min is not None and series.min() < self.min:
+            raise ColumnValues("Values less than {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and series.max() > self.max:
+            raise ColumnValues("Values greater than {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 7a072777debe7bda6a5e7a1de46357e5bd88b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:20 +0000
Subject: [PATCH 13/27] fix: NEMDE files whose collections contain a single
 element can be read

---
 src/nempy/historical_inputs/xml_cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..f836ae0 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -92,7 +92,12 @@ class XMLCacheManager:
                         self.interval))
         with open(self.get_file_path()) as file:
             read = file.read()
-            self.xml = xmltodict.parse(read)
+            # Collections that the methods below iterate over are always parsed as lists, even if the file only
+            # contains one element.
+            self.xml = xmltodict.parse(read, force_list=(
+                'Trader', 'TraderPeriod', 'TraderInitialCondition', 'GenericConstraint', 'ConstraintSolution',
+                'InterconnectorPeriod', 'MNSPOffer', 'RegionSolution', 'ConstraintScadaData', 'GenericEquation',
+                'EnteredValuePeriod'))
 
     def interval_inputs_in_cache(self):
         """Check if the cache contains the data for the loaded interval, primarily for debugging.
-- 
2.43.0


From 8e257a532f16a6439c9399ab4b394a0f1e536913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:50 +0000
Subject: [PATCH 14/27] fix: constraints that depend on an input through
 several terms are only listed once

---
 src/nempy/historical_inputs/rhs_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..56fea5c 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -391,9 +391,9 @@ class RHSCalc:
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
             for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
+                if (equation_id not in dependent_rhs_equations and
+                        ((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                         (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X'))):
                     dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
-- 
2.43.0


From 3f3c349633cc9831160f99b2ca5e15da62c9921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:50 +0000
Subject: [PATCH 15/27] fix: two value operators on constants work without the
 constant having a default

---
 src/nempy/historical_inputs/rhs_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 56fea5c..975a5bc 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -655,7 +655,7 @@ def _rpn_calc(equation):
 
 def _get_default_if_needed(term):
     if '@Value' not in term:
-        return term['@Default']
+        return term.get('@Default')  # Constants don't need to have a default.
     else:
         return term['@Value']
 
-- 
2.43.0


From 1310db8fb3419a4e0f6f60c949390ee19637c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:50 +0000
Subject: [PATCH 16/27] fix: nested groups that start their parent group are no
 longer dropped from the right hand side

---
 src/nempy/historical_inputs/rhs_calculator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 975a5bc..f889c1c 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -523,7 +523,7 @@ class RHSCalc:
         return value
 
 
-def _rpn_stack(equation):
+def _rpn_stack(equation, clear_group_values=True):
     """
     Calculates the stack state after evaluating a rhs or generic equation.
 
@@ -540,7 +540,9 @@ def _rpn_stack(equation):
     ignore_groups = []  # Once groups have been calculated they are added to list to be ignored so they aren't processed
     # again
     pop_flag = False
-    _clear_group_values(equation)
+    if clear_group_values:
+        # Not done for the members of a group, which can include a type G term whose sub group has just been calculated.
+        _clear_group_values(equation)
     for i, term in enumerate(equation):
 
         if (term['@SpdType'] == 'G' and '@Value' not in term and
@@ -564,7 +566,7 @@ def _rpn_stack(equation):
             group = _collect_group(equation, group_id)
             if remove_first_member:
                 group.pop
-            group_result = _rpn_calc(group)
+            group_result = _rpn_calc(group, clear_group_values=False)
             term['@Value'] = group_result
             ignore_groups.append(group_id)
             sub_groups_ids = _get_sub_groups(group)
@@ -575,7 +577,7 @@ def _rpn_stack(equation):
             # the value from the group is added directly to the stack.
             group_id = term['@GroupTerm']
             group = _collect_group(equation, group_id)
-            group_result = _rpn_calc(group)
+            group_result = _rpn_calc(group, clear_group_values=False)
             if equation[i + len(group)]['@SpdType'] == 'G':
                 equation[i + len(group)]['@Value'] = group_result
             else:
@@ -649,8 +651,8 @@ def _rpn_stack(equation):
     return stack
 
 
-def _rpn_calc(equation):
-    return _rpn_stack(equation)[0]
+def _rpn_calc(equation, clear_group_values=True):
+    return _rpn_stack(equation, clear_group_values)[0]
 
 
 def _get_default_if_needed(term):
-- 
2.43.0


From 0906dac432b4492ea5a89aef59f17b61c86da7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 17/27] fix: service prices include lower 5 min, are numbers
 and come from the non-intervention run

---
 src/nempy/historical_inputs/xml_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index f836ae0..2af710c 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1166,16 +1166,18 @@ class XMLCacheManager:
         """
         service_type_map = \
             {'@EnergyPrice': 'ENERGY', '@LRegPrice': 'LOWERREG', '@RRegPrice': 'RAISEREG', '@R5Price': 'RAISE5MIN',
-             '@RL5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
+             '@L5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
              '@L6Price': 'LOWER6SEC', '@R1Price': 'RAISE1SEC', '@L1Price': 'LOWER1SEC'}
         prices = dict(region=[], service=[], price=[])
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
         for region in regions:
+            if region.get('@Intervention', '0') != '0':
+                continue
             for xml_service, mms_service in service_type_map.items():
                 if xml_service in region:
                     prices['region'].append(region['@RegionID'])
                     prices['service'].append(mms_service)
-                    prices['price'].append(region[xml_service])
+                    prices['price'].append(float(region[xml_service]))
         return pd.DataFrame(prices)
 
 
-- 
2.43.0


From a0699c0dc4f069cf25565b21ab21a7944827ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 18/27] fix: volume bid attributes that are not in the NEMDE
 file no longer take the value of another attribute

---
 src/nempy/historical_inputs/xml_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 2af710c..2867930 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -445,6 +445,8 @@ class XMLCacheManager:
                         value = float(trade[aemo_name])
                 elif aemo_name == '@Direction':
                     value = 'missing'
+                else:
+                    value = np.nan
                 trades_by_unit_and_type[our_name].append(value)
             return trades_by_unit_and_type
 
-- 
2.43.0


From 006c5ec1bf3125ddd2655ec481d679c94d0440ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 19/27] fix: intervals that are not in the cache are not given
 the name of an OCD re-run

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 2867930..980492b 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -158,7 +158,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From c93dbec8b50a09a2c9769e33622d2a0b8153ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:27 +0000
Subject: [PATCH 20/27] fix: MissingDataError is raised when NEMWeb does not
 have the data for an interval

---
 src/nempy/historical_inputs/xml_cache.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 980492b..44d22c0 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -173,9 +173,12 @@ class XMLCacheManager:
             z.extractall(self.cache_folder)
         except zipfile.BadZipFile:
             sleep(200)
-            r = requests.get(url)
-            z = zipfile.ZipFile(io.BytesIO(r.content))
-            z.extractall(self.cache_folder)
+            try:
+                r = requests.get(url)
+                z = zipfile.ZipFile(io.BytesIO(r.content))
+                z.extractall(self.cache_folder)
+            except zipfile.BadZipFile:
+                pass  # The data is not available, load_interval raises the MissingDataError.
 
     def _get_market_year_month_day(self):
         date_time = self._get_interval_datetime_object()
-- 
2.43.0


From 19f8cba44a42c473756ff9968bbc48beef6d889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:50 +0000
Subject: [PATCH 21/27] fix: time sequential ramp parameters net the two sides
 of bidirectional units and default the service to energy

---
 src/nempy/time_sequential.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..d70f2c7 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,8 +66,17 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
-    last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
+    last_interval_energy_dispatch = last_interval_dispatch
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    last_interval_energy_dispatch = last_interval_energy_dispatch.copy()
+    if 'dispatch_type' in last_interval_dispatch.columns:
+        # Bidirectional units have a target for each side, their output is the difference between the two.
+        is_load_side = (last_interval_energy_dispatch['dispatch_type'] == 'load') & \
+            last_interval_energy_dispatch.duplicated('unit', keep=False)
+        last_interval_energy_dispatch['dispatch'] = last_interval_energy_dispatch['dispatch'].where(
+            ~is_load_side, -1.0 * last_interval_energy_dispatch['dispatch'])
+    last_interval_energy_dispatch = last_interval_energy_dispatch.groupby('unit', as_index=False)['dispatch'].sum()
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
     ramp_rates = ramp_rates.fillna(0.0)
-- 
2.43.0


From 53bbc8817271a8640afe834e0cdc109e2d28f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:57 +0000
Subject: [PATCH 22/27] fix: list the constraints that depend on an input
 through nested generic equations

---
 src/nempy/historical_inputs/rhs_calculator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f889c1c..83d7171 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -382,11 +382,16 @@ class RHSCalc:
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
-            for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
-                    dependent_generic_equations.append(equation_id)
+        new_dependents_found = True
+        while new_dependents_found:  # Generic equations can reference each other, so keep going until none are added.
+            new_dependents_found = False
+            for equation_id, equation in self.generic_equations.items():
+                for term in equation:
+                    if (equation_id not in dependent_generic_equations and
+                            ((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                             (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X'))):
+                        dependent_generic_equations.append(equation_id)
+                        new_dependents_found = True
 
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
-- 
2.43.0


From 183b10dce863ee5dd32672201c597719fae0dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 23/27] fix: requirements and generic constraints without any
 participating variable still have to hold

---
 src/nempy/markets.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 2ef7a67..592dd60 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3054,6 +3054,17 @@ class SpotMarket:
             # Drop coefficients left over from constraints that have since been replaced or removed.
             constraints_lhs = constraints_lhs[
                 constraints_lhs['constraint_id'].isin(constraints_rhs_and_type['constraint_id'])]
+            # Requirements and generic constraints that no variable in the market contributes to still have to hold.
+            required = [df for df in [self._market_constraints_rhs_and_type.get('demand'),
+                                      self._market_constraints_rhs_and_type.get('fcas'),
+                                      self._constraints_rhs_and_type.get('generic')] if df is not None]
+            if required:
+                required = pd.concat(required)
+                no_lhs = required[~required['constraint_id'].isin(constraints_lhs['constraint_id'])]
+                constraints_lhs = pd.concat([constraints_lhs, pd.DataFrame({
+                    'constraint_id': no_lhs['constraint_id'],
+                    'variable_id': variable_definitions['variable_id'].iloc[0],
+                    'coefficient': 0.0})])
             si.add_constraints(constraints_lhs, constraints_rhs_and_type)
 
         # If interconnectors with losses are being used, create special ordered sets for modelling losses.
-- 
2.43.0


From 624ebb47be50b0053965670d66a80a9c7e6c2e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:39 +0000
Subject: [PATCH 24/27] fix: a setter called with an unusable violation cost no
 longer changes the market before it raises

---
 src/nempy/markets.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 592dd60..ba523ca 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -518,6 +518,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._validate_violation_cost_argument(violation_cost)
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
@@ -633,6 +634,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._validate_violation_cost_argument(violation_cost)
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits.copy(), self._next_constraint_id)
@@ -821,6 +823,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._validate_violation_cost_argument(violation_cost)
         self._validate_ramp_rates(ramp_details)
         self._validate_bidirectional_unit_inputs(ramp_details, "ramp_details")
 
@@ -1025,6 +1028,7 @@ class SpotMarket:
                 If there are inf, null or negative values in any of the numeric columns.
 
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_fast_start_profiles(fast_start_profiles)
 
@@ -1143,6 +1147,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the volume column.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
@@ -1248,6 +1253,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the volume column.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements.copy(), self._next_constraint_id)
@@ -1346,6 +1352,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability.copy(),
@@ -1511,6 +1518,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_scada_ramp_rates_for_reg(scada_ramp_rates)
 
@@ -1733,6 +1741,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
@@ -1869,6 +1878,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if variable_ids:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
@@ -2371,6 +2381,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf or null values in the rhs column.
         """
+        self._validate_violation_cost_argument(violation_cost)
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
@@ -2759,6 +2770,13 @@ class SpotMarket:
             self._lhs_coefficients[constraints_key + '_deficit'] = lhs
             self._next_variable_id = max(deficit_variables['variable_id']) + 1
 
+    def _validate_violation_cost_argument(self, violation_cost):
+        # Checked before a setter replaces any constraints, so that a rejected call doesn't change the market.
+        if isinstance(violation_cost, pd.DataFrame):
+            self._validate_violation_cost(violation_cost)
+        elif isinstance(violation_cost, bool) or not isinstance(violation_cost, (int, float, type(None))):
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+
     @staticmethod
     def _validate_violation_cost(violation_cost):
         schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
-- 
2.43.0


From fa9a89b2157985c4cc55b5cac650099b5ee84a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:05 +0000
Subject: [PATCH 25/27] fix: the solver searches until the least cost dispatch
 is found, python-mip replaced the gap that was set

---
 src/nempy/spot_market_backend/solver_interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 60d4619..e39cddd 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -21,13 +21,13 @@ class InterfaceToSolver:
             raise ValueError("Solver '{}' not recognised.")
 
         self.mip_model.verbose = 0
-        self.mip_model.solver.set_mip_gap_abs(1e-10)
-        self.mip_model.solver.set_mip_gap(1e-20)
+        self.mip_model.max_mip_gap_abs = 1e-10
+        self.mip_model.max_mip_gap = 1e-20
         self.mip_model.lp_method = LP_Method.DUAL
 
         self.linear_mip_model.verbose = 0
-        self.linear_mip_model.solver.set_mip_gap_abs(1e-10)
-        self.linear_mip_model.solver.set_mip_gap(1e-20)
+        self.linear_mip_model.max_mip_gap_abs = 1e-10
+        self.linear_mip_model.max_mip_gap = 1e-20
         self.linear_mip_model.lp_method = LP_Method.DUAL
 
     def add_variables(self, decision_variables):
-- 
2.43.0


From 5c3eeaa0cd06d9d6ed620b09259d6428fd6ad2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:21 +0000
Subject: [PATCH 26/27] fix: prices with market interconnectors that have no
 loss model respect that only one link may carry flow

---
 src/nempy/markets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index ba523ca..787d0eb 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3122,7 +3122,7 @@ class SpotMarket:
 
         # Models with interconnectors use binary variables, the model needs to be linearised to allow for shadow prices
         # to be accessed and used to price constraints.
-        if 'interconnector_losses' in self._decision_variables:
+        if 'interconnectors' in self._decision_variables:
             si = self._get_linear_model(si)
         si.linear_mip_model.optimize()
 
@@ -3196,7 +3196,8 @@ class SpotMarket:
         self.objective_value = si.mip_model.objective_value
 
     def _get_linear_model(self, si):
-        self._remove_unused_interpolation_weights(si)
+        if 'interpolation_weights' in self._decision_variables:
+            self._remove_unused_interpolation_weights(si)
         self._disable_unused_link_pair(si)
         return si
 
@@ -3204,6 +3205,11 @@ class SpotMarket:
         inter_vars = self._decision_variables['interconnectors']
         inter_vars = inter_vars[inter_vars['interconnector'] != inter_vars['link']]
         inter_vars_unused = inter_vars[inter_vars['value'] == 0.0]
+        if 'interconnector_losses' not in self._decision_variables:
+            # Without a loss model both links of an idle interconnector are left available to set the price.
+            inter_vars_used = inter_vars[inter_vars['value'] != 0.0]
+            inter_vars_unused = inter_vars_unused[
+                inter_vars_unused['interconnector'].isin(inter_vars_used['interconnector'])]
         si.disable_variables(inter_vars_unused)
 
     def _remove_unused_interpolation_weights(self, si):
-- 
2.43.0


From e727c152b87a627711a5313aac9e56bf6de281a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:40 +0000
Subject: [PATCH 27/27] fix: looking for the constraint that makes a market
 infeasible no longer crashes the solver

---
 src/nempy/spot_market_backend/solver_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index e39cddd..2599f94 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -478,7 +478,7 @@ def find_problem_constraint(base_prob):
     test_prob = base_prob.copy()
     for con in [con.name for con in base_prob.constrs]:
         [test_prob.remove(c) for c in test_prob.constrs if c.name == con]
-        status = test_prob.optimize()
+        status = test_prob.optimize(relax=True)
         cons.append(con)
         if status == OptimizationStatus.OPTIMAL:
             return cons
-- 
2.43.0

