From c9ef7524a0bfdf5b83fe92c0154224c6b890d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 01/26] fix: convert ad-hoc attribute values passed as strings
 to numbers

stick_coef and arrh_a accept strings (allowed_attribute_types), but a string
ad-hoc value was returned unconverted by the chemistry-level getters and could
not be scaled to SI units.
---
 plaschem/chemistry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 7af45a1..2cc00d7 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -371,7 +371,8 @@ class Chemistry(object):
         if type(value) not in RP.allowed_attribute_types[attrib]:
             raise RPAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
         # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        # the same goes for numbers given as str, the getters need to return (and scale) numbers
+        if type(value) in (np.float64, str):
             value = float(value)
         if attrib == 'ret_coefs':
             # verify the consistency of the chemistry with new return species
@@ -423,7 +424,8 @@ class Chemistry(object):
         if type(value) not in Reaction.allowed_attribute_types[attrib]:
             raise ReactionAttributeError('Unsupported value type for {} attribute: {}'.format(attrib, type(value)))
         # need to convert np.float64 explicitly to float, otherwise the yaml dump will be a mess!
-        if type(value) == np.float64:
+        # the same goes for numbers given as str, the getters need to return (and scale) numbers
+        if type(value) in (np.float64, str):
             value = float(value)
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
-- 
2.43.0


From 9250d9bba28f40be90f6dc437053ad7487501fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 02/26] fix: keep return coefficients and return matrix within
 the selected species

Ad-hoc return coefficients (and zeroed sticking coefficients) of species masked
out by disabled/protected enlarged the returned series, a special return species
added a row to the return matrix, and get_return_matrix(special=True) raised.
---
 plaschem/chemistry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 2cc00d7..52051fb 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -725,9 +725,11 @@ class Chemistry(object):
         species_ret_coefs = pd.Series([copy.deepcopy(sp.get_ret_coefs()) for sp in species], index=species.index)
         # update with the adhoc ret_coefs:
         for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
+            if sp_id not in species_ret_coefs.index:
+                continue  # masked out by the disabled/special/protected criteria
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
-        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special)
+        species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
         for sp_id in species_stick_coefs.index:
             if species_stick_coefs.at[sp_id] == 0.:
                 species_ret_coefs.at[sp_id] = {}
@@ -862,13 +864,16 @@ class Chemistry(object):
             if ret_coefs is not None:
                 for return_sp_name in ret_coefs:
                     return_sp_id = self.get_rp(return_sp_name).id
+                    if return_sp_id not in ret_mat.index:
+                        continue  # special return species, when those are not included
                     ret_coef = ret_coefs[return_sp_name]
                     ret_mat.at[return_sp_id, sp_id] = ret_coef
         ret_mat = ret_mat.fillna(0.)
 
         if special:  # fill in the special species values back to NaN's...
-            ret_mat.at[self._special_sp, :] = np.nan
-            ret_mat.at[:, self._special_sp] = np.nan
+            special_sp = self._special_sp[ret_mat.index].values
+            ret_mat.loc[special_sp, :] = np.nan
+            ret_mat.loc[:, special_sp] = np.nan
 
         return ret_mat
 
-- 
2.43.0


From 3c9cc85e9b721a97c098186f8a187cf280ce868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 03/26] fix: Chemistry.copy returns an instance of the same
 class

Copying a NeutralChemistry built a plain Chemistry, which raises for lack of an
electron.
---
 plaschem/chemistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 52051fb..fd5308e 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -96,7 +96,7 @@ class Chemistry(object):
         will still be sharing species and reactions objects.
         :return: (self instance)
         """
-        self_copy = Chemistry(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
+        self_copy = self.__class__(species=self._species.values, reactions=self._reactions.values, xml_path=self.xml_path)
 
         # ENFORCE IDENTICAL STATE:
         # masks:
-- 
2.43.0


From a88b0455f3161611ab136a8172f0801907b57292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 04/26] fix: classify reactions of same-sign ions, of multiply
 charged ions and of electrons only

ReactionClassifier raised IndexError for (charge-balanced) reactions such as
Ar++ + Ar > Ar+ + Ar+, Ar+ + Ar+ > Ar++ + Ar or e + e > e + e.
---
 plaschem/classification.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 783140a..f782e13 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -298,8 +298,9 @@ class ReactionClassifier(object):
             r_category = 'unclassified electron impact collisions'
             col_partners = [sp for sp in reactants if sp.get_name() != 'e']
             heavy_products = [sp for sp in products if sp.get_name() != 'e']
-            col_partner = col_partners[0]  # used only for the case of only one collision partner
-            if len(reactants) < 2:  # this is a screw case, will go to unclassified
+            # used only for the case of only one collision partner:
+            col_partner = col_partners[0] if len(col_partners) else None
+            if len(reactants) < 2 or col_partner is None:  # these are screw cases, will go to unclassified
                 pass
             elif len(reactants) > 3:  # this will lend in unclassified as well
                 pass
@@ -413,15 +414,18 @@ class ReactionClassifier(object):
                     ):
                         r_category = 'interchange'
 
-            elif ((charges_r > 0) + (charges_r == 0)).all():
+            elif ((charges_r > 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'POSITIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified positive ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r > 0)[0][0]]
                 r_neutral = reactants[np.where(charges_r == 0)[0][0]]
                 if len(products) == len(reactants):
-                    p_ion = products[np.where(charges_p > 0)[0][0]]
-                    p_neutral = products[np.where(charges_p == 0)[0][0]]
-                    if r_ion.get_name().strip('+') == p_neutral.get_name() and \
+                    # there might be no neutral product (e.g. with multiply charged ions)
+                    p_ion = next((sp for sp, q in zip(products, charges_p) if q > 0), None)
+                    p_neutral = next((sp for sp, q in zip(products, charges_p) if q == 0), None)
+                    if p_ion is None or p_neutral is None:
+                        pass
+                    elif r_ion.get_name().strip('+') == p_neutral.get_name() and \
                             r_neutral.get_name() == p_ion.get_name().strip('+'):
                         if r_neutral.get_name() == p_neutral.get_name() and r_ion.get_name() == p_ion.get_name():
                             r_category = 'resonant charge transfer'
@@ -431,7 +435,7 @@ class ReactionClassifier(object):
                     if r_neutral.get_name() + '+' in [sp.get_name() for sp in products]:
                         r_category = 'dissociative charge transfer'
 
-            elif ((charges_r < 0) + (charges_r == 0)).all():
+            elif ((charges_r < 0) + (charges_r == 0)).all() and (charges_r == 0).any():
                 r_type = 'NEGATIVE ION - NEUTRAL COLLISIONS'
                 r_category = 'unclassified negative ion - neutral collisions'
                 r_ion = reactants[np.where(charges_r < 0)[0][0]]
@@ -442,9 +446,12 @@ class ReactionClassifier(object):
                     elif len(reactants) > len(products) - el_stoich_coef:
                         r_category = 'associative detachment'
                 elif len(products) == len(reactants):
-                    p_ion = products[np.where(charges_p < 0)[0][0]]
-                    p_neutral = products[np.where(charges_p == 0)[0][0]]
-                    if r_ion.get_name().strip('-') == p_neutral.get_name() and \
+                    # there might be no neutral product (e.g. with multiply charged ions)
+                    p_ion = next((sp for sp, q in zip(products, charges_p) if q < 0), None)
+                    p_neutral = next((sp for sp, q in zip(products, charges_p) if q == 0), None)
+                    if p_ion is None or p_neutral is None:
+                        pass
+                    elif r_ion.get_name().strip('-') == p_neutral.get_name() and \
                             r_neutral.get_name() == p_ion.get_name().strip('-'):
                         if r_neutral.get_name() == p_neutral.get_name() and r_ion.get_name() == p_ion.get_name():
                             r_category = 'resonant charge transfer'
-- 
2.43.0


From 6f4c0f7dba216cf0a62a1f561f531775ec60ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:53 +0000
Subject: [PATCH 05/26] fix: sort species containing scandium or thallium

Sc was misspelt and Tl replaced by a second Ti in the elements order, so sorting
a chemistry with either element raised ValueError.
---
 plaschem/classification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index f782e13..8605b73 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -75,10 +75,10 @@ class ReactionClassifier(object):
 
     elements_order = [
         'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
-        'SC', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
+        'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
         'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
         'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
-        'Pt', 'Au', 'Hg', 'Ti', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
+        'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U', 'Np', 'Pu', 'Am', 'Cm',
         'Bk', 'Cf', 'M'
     ]
 
-- 
2.43.0


From b67f8deda797fd091c976e8b6de8259f30e1ef68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:35 +0000
Subject: [PATCH 06/26] fix: reset the alignment memos when ReactionClassifier
 re-sorts its species

Reactions strings requested after a second sort_species used the old order and
were misaligned.
---
 plaschem/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plaschem/classification.py b/plaschem/classification.py
index 8605b73..a961b03 100644
--- a/plaschem/classification.py
+++ b/plaschem/classification.py
@@ -216,7 +216,9 @@ class ReactionClassifier(object):
         self.species.sort(key=self._get_species_sort_key)
         # reset dependencies:
         self._classified_reactions = OrderedDict()
+        self._alignments = dict()
         self._memo_species_index = dict()
+        self._memo_reactions_sorted_species_names = dict()
 
     def _species_index(self, sp):
         """This is just getting index of a species inside the self.species list. Only here to optimise the lookup
-- 
2.43.0


From 8312b5158b19d6b0656a38236862a5ed6ca21e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 07/26] fix: restore ad-hoc return coefficients of a return
 species disabled later

load_chemistry_attributes restored the masks first and then refused ad-hoc return
coefficients naming a disabled species, so such a dumped state could not be loaded.
---
 plaschem/chemistry.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index fd5308e..077621b 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -563,6 +563,14 @@ class Chemistry(object):
                 raise ChemistryAttributeError('Chemistry xml input file content is not matching!')
 
         # all appears valid, so can start restoring the attributes:
+        # ad-hoc attributes (before the masks, as the ad-hoc return species might have been disabled afterwards):
+        self._enabled_sp[:], self._enabled_r[:] = True, True
+        self.reset_adhoc_species_attributes('all')
+        for params_list in adhoc_species_attributes:
+            self.set_adhoc_species_attributes(*params_list)
+        self.reset_adhoc_reactions_attributes('all')
+        for params_list in adhoc_reactions_attributes:
+            self.set_adhoc_reactions_attributes(*params_list)
         # masks:
         self._enabled_sp[enabled_sp_ids] = True
         self._enabled_sp[disabled_sp_ids] = False
@@ -572,13 +580,6 @@ class Chemistry(object):
         self._adhoc_protected_sp[adhoc_protected_sp_ids] = True
         self._enabled_r[enabled_r_ids] = True
         self._enabled_r[disabled_r_ids] = False
-        # ad-hoc attributes:
-        self.reset_adhoc_species_attributes('all')
-        for params_list in adhoc_species_attributes:
-            self.set_adhoc_species_attributes(*params_list)
-        self.reset_adhoc_reactions_attributes('all')
-        for params_list in adhoc_reactions_attributes:
-            self.set_adhoc_reactions_attributes(*params_list)
 
         # assert consistency to be on a safe side:
         self.assert_consistency()
-- 
2.43.0


From 89ecd31391853418bddf02cc8a8afc58fb405ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 08/26] fix: parse xml reactions of species with commas in
 their states

The parser split the reactants and products at every comma, including those inside
of the state of a species, such as N2(X,v=1), which the builder writes as they are.
---
 plaschem/xml_inputs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/xml_inputs.py b/plaschem/xml_inputs.py
index 2127c61..3e80ea0 100644
--- a/plaschem/xml_inputs.py
+++ b/plaschem/xml_inputs.py
@@ -737,8 +737,10 @@ class XmlParser(object):
 
             attributes = {element.tag: element.text for element in list(reaction_xml) if element.tag not in skip_tags}
             # deal with the skipped tags:
-            reactants_names = [sp_name.strip() for sp_name in reaction_xml.find('reactants').text.split(',')]
-            products_names = [sp_name.strip() for sp_name in reaction_xml.find('products').text.split(',')]
+            # commas inside of parenthesis belong to species names with multiple states, e.g. 'N2(X,v=1)'
+            separator = re.compile(r',(?![^()]*\))')
+            reactants_names = [sp_name.strip() for sp_name in separator.split(reaction_xml.find('reactants').text)]
+            products_names = [sp_name.strip() for sp_name in separator.split(reaction_xml.find('products').text)]
             reactants = [species_dict[sp_name] for sp_name in reactants_names]
             products = [species_dict[sp_name] for sp_name in products_names]
 
-- 
2.43.0


From e7d5ce93c7b275dd2ec13b6884a2f9cfec7becd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 09/26] fix: calculate the free diffusivities in
 NeutralEquations when not given

get_diffusivities returned None, so wall fluxes and all the terms depending on them
could not be evaluated (or diagnosed) from the state vector alone.
---
 pygmo_fwork/pygmol/neutral_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygmo_fwork/pygmol/neutral_model.py b/pygmo_fwork/pygmol/neutral_model.py
index 3a64024..e0d080d 100644
--- a/pygmo_fwork/pygmol/neutral_model.py
+++ b/pygmo_fwork/pygmol/neutral_model.py
@@ -67,6 +67,8 @@ class NeutralEquations(Equations):
         return self.sigma_sc
 
     def get_diffusivities(self, y, diff_c_free=None, diff_a_pos=None, diff_a_neg=None):
+        if diff_c_free is None:
+            diff_c_free = self.get_free_diffusivities(y)
         return diff_c_free
 
     # redefine the objective function factory, so it does not calculate unnecessary clutter
-- 
2.43.0


From 61d9f3b27ae345b80c31ec6b64979f984421bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 10/26] fix: keep times of power steps given as integers from
 being truncated

The smearing of doubled time points by 1e-5*t_end was truncated in an integer array,
which made e.g. t_power=(0, 1, 1, 2) refused as ill-defined, or shifted the step.
---
 pygmo_fwork/pygmol/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/pygmol/equations.py b/pygmo_fwork/pygmol/equations.py
index 039aa75..416b7ff 100644
--- a/pygmo_fwork/pygmol/equations.py
+++ b/pygmo_fwork/pygmol/equations.py
@@ -188,7 +188,7 @@ class Equations(object):
         self.t_end = model_params['t_end']
 
         self.pow = np.array(model_params['power'])
-        self.t_pow = np.array(model_params['t_power'])
+        self.t_pow = np.array(model_params['t_power'], dtype=float)  # adjusted by non-integer time steps below
 
         # adjust repeated values in P_t, since P_t needs to be strictly ascending - need to make it continuous func
         d_t = 0.00001 * self.t_end
-- 
2.43.0


From 1e0edd93c35e59712ba72f5457400a97d9af03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 11/26] fix: label the diagnosed quantities of single-reaction
 chemistries and of as many reactions as species

---
 pygmo_fwork/pygmol/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model.py b/pygmo_fwork/pygmol/model.py
index 35d76ef..eb33a14 100644
--- a/pygmo_fwork/pygmol/model.py
+++ b/pygmo_fwork/pygmol/model.py
@@ -1,3 +1,4 @@
+import copy
 import inspect
 import os
 
@@ -40,6 +41,9 @@ class Model(object):
         'num_reactions'
     )
 
+    # quantities of the Equations class with a value for each reaction:
+    reactions_quantities = ('reaction_rate_coefficients', 'reaction_rates', 'el_en_losses')
+
     def __init__(self, chemistry, model_params):
         """Initialiser of the GlobalModel class. The model solves equations for density balance for Ns species
         and electron temperature balance. A Chemistry class instance needs to be passed as chemistry, defining
@@ -243,8 +247,14 @@ class Model(object):
         """
         if sol_primary is None:
             sol_primary = self.sol_primary
-        diagnostics = pd.DataFrame([getattr(self.equations, 'get_{}'.format(quantity))(y).copy() for y in sol_primary])
-        if diagnostics.shape[1] == self.equations.num_species:  # a value for each species
+        values = [copy.copy(getattr(self.equations, 'get_{}'.format(quantity))(y)) for y in sol_primary]
+        diagnostics = pd.DataFrame(values)
+        # the numbers of species and reactions might be the same, or equal to one, so the shape alone is not enough
+        if not any(np.ndim(value) for value in values):  # one value for the whole system
+            diagnostics.columns = ['value']
+        elif quantity in self.reactions_quantities:  # a value for each reaction
+            diagnostics.columns = list(self.chemistry.get_reactions_id())
+        elif diagnostics.shape[1] == self.equations.num_species:  # a value for each species
             diagnostics.columns = list(self.chemistry.get_species_name())
         elif diagnostics.shape[1] == self.equations.num_reactions:  # a value for each reaction
             diagnostics.columns = list(self.chemistry.get_reactions_id())
-- 
2.43.0


From a861e3287c8cf55403db9e65e2423c1b5f49d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 12/26] fix: compress solutions with negative values (wall
 fluxes) by their relative differences

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f5154c3..b4196f3 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -506,7 +506,7 @@ class ResultsParser(object):
                 if next_index >= len(full_sol.index) - 1:
                     break
                 diff = abs(full_sol.loc[next_index] - full_sol.loc[front_index])
-                rel_diff = diff/full_sol.loc[front_index]
+                rel_diff = diff/abs(full_sol.loc[front_index])
                 if diff['t'] < min_step_abs:
                     drop_index.add(next_index)
                     next_index += 1
-- 
2.43.0


From f8beaff1a0b2c3cb4caa29d0920124f87420f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 13/26] fix: print the production and consumption processes
 without the removed Series.append

---
 pygmo_fwork/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index b4196f3..f53c3ce 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -430,7 +430,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         production_rates = all_rates[all_rates > 0]
         # capping
         if n is None:
@@ -463,7 +463,7 @@ class ResultsParser(object):
         surface_rates = \
             ResultsParser.get_surface_rates(sp=sp, chemistry=chemistry, model_params=model_params,
                                             wall_fluxes_frame=wall_fluxes_frame, annotate=True)
-        all_rates = volumetric_rates.append(surface_rates, verify_integrity=True)
+        all_rates = pd.concat([volumetric_rates, surface_rates], verify_integrity=True)
         consumption_rates = all_rates[all_rates < 0]
         # capping
         if n is None:
-- 
2.43.0


From 7a69a9dbc6243e3de96e6ab06f0ebca3135e9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 14/26] fix: sort the surface rates by descending values as
 documented

---
 pygmo_fwork/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index f53c3ce..e408991 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -395,7 +395,7 @@ class ResultsParser(object):
 
         # select just non-zero elements from one row belonging to the species sp:
         surface_rates = surface_rates_matrix.loc[sp_id]
-        surface_rates = surface_rates[surface_rates != 0]
+        surface_rates = surface_rates[surface_rates != 0].sort_values(ascending=False)
 
         # annotate:
         if annotate:
-- 
2.43.0


From 0b703fa0af28f8e73bc60771ac752ad2c539d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 15/26] fix: interpolate results frames held in object columns,
 and return numeric frames

---
 pygmo_fwork/results.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygmo_fwork/results.py b/pygmo_fwork/results.py
index e408991..95a99b3 100644
--- a/pygmo_fwork/results.py
+++ b/pygmo_fwork/results.py
@@ -238,13 +238,13 @@ class ResultsParser(object):
             assert results_df['t'].iloc[0] <= t <= results_df['t'].iloc[-1], \
                 'time={} is outside the results_df range'.format(t)
 
-        frames = pd.DataFrame(columns=results_df.columns)
-        frames.loc[:, 't'] = times
+        frames = pd.DataFrame(columns=results_df.columns, index=range(len(times)), dtype=float)
+        frames['t'] = np.array(times, dtype=float)
         ignore_columns = {'t'}
         for col in results_df.columns:
             if col not in ignore_columns:
-                vals_at_times = np.interp(times, results_df['t'], results_df[col])
-                frames.loc[:, col] = vals_at_times
+                vals_at_times = np.interp(times, results_df['t'].astype(float), results_df[col].astype(float))
+                frames[col] = vals_at_times
         return frames
 
     def fetch_model_params(self, run_id, backend=None, results_dir=None, attributes_dump_name=None):
-- 
2.43.0


From fd3e63bf89c67e9aab6f4433431efdba3bcd6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 16/26] fix: normalise the DRGEP weights of species with equal
 production and consumption

---
 pygmo_fwork/optichem/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 15bf7aa..f29ac97 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -468,9 +468,7 @@ class ChemistryGraph(object):
             assert (tot_prod >= 0).all()
             assert (tot_cons >= 0).all()
             # build the normalisation array (N_times x N_species):
-            norm = np.zeros(tot_prod.shape)
-            norm[tot_prod > tot_cons] = tot_prod[tot_prod > tot_cons]
-            norm[tot_cons > tot_prod] = tot_cons[tot_cons > tot_prod]
+            norm = np.maximum(tot_prod, tot_cons)
             # rows are important times and columns are species
         else:
             raise NotImplementedError('Unrecognised weighting method: {}'.format(weighting_method))
-- 
2.43.0


From 38866369272a977373f22b48f7c42c91a98b0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 17/26] fix: rank species over all the important times, even if
 very close to each other

---
 pygmo_fwork/optichem/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index f29ac97..a654dde 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -519,7 +519,7 @@ class ChemistryGraph(object):
         for important_sp in important_species:
             for t_i, important_time in enumerate(self.important_times):
                 graph = self.graphs[t_i]
-                index = '{} ({:.3e})'.format(important_sp, important_time)
+                index = '{} ({}: {:.3e})'.format(important_sp, t_i, important_time)  # unique, even for very close times
                 if search_method == 'max_bottleneck':
                     paths, scores = graph.find_max_bottleneck_paths(target_node=important_sp, edge_attribute='weight')
                 elif search_method == 'shortest_path':
-- 
2.43.0


From 739a6088c0cbc532edbc8e44031c4d6e242d87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 18/26] fix: rank species without any edges in the graph as the
 least important

---
 pygmo_fwork/optichem/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index a654dde..95d3da4 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -532,11 +532,14 @@ class ChemistryGraph(object):
                 elif search_method == 'max_flow':
                     scores = {}
                     for sp in assessed_species:
+                        if sp not in graph.get_nodes():
+                            continue  # not connected to any species
                         max_flow = graph.get_max_flow(source_node=sp, target_node=important_sp, edge_attribute='weight')
                         scores[sp] = max_flow
                 else:
                     raise ValueError('Unrecognised search method: {}'.format(search_method))
-                ranking_all.loc[index, :] = scores
+                # species not connected to any other species are not in the graph at all:
+                ranking_all.loc[index, :] = {sp: scores.get(sp, 0.) for sp in assessed_species}
 
         ranking = ranking_all.max(axis=0)
         # sort values (also first sorting by keys, so order for species with the same scores is consistent)
-- 
2.43.0


From 5d11095bc9de75f2723667c9163534fddd027fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 19/26] fix: build the capacity matrix of the maximum flow from
 lists, not sets, of nodes

---
 pygmo_fwork/optichem/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/graph.py b/pygmo_fwork/optichem/graph.py
index 95d3da4..a7362f0 100644
--- a/pygmo_fwork/optichem/graph.py
+++ b/pygmo_fwork/optichem/graph.py
@@ -240,7 +240,7 @@ class Graph(object):
         weighting_func, inverse = self._default_weighting_functions(weighting_func, inverse)
 
         # first build the matrix of capacities and plugging zero where edges do not exist:
-        capacity = pd.DataFrame(index=self.get_nodes(), columns=self.get_nodes())
+        capacity = pd.DataFrame(index=list(self.get_nodes()), columns=list(self.get_nodes()))
         for u in self.get_nodes():
             for v in self.get_nodes():
                 if self.has_edge(u, v):
-- 
2.43.0


From 3b22e7f7ee8c5ae0ba8f1e588f832f327f05880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:24 +0000
Subject: [PATCH 20/26] fix: compare the model backend of Morris trajectories
 case-insensitively, as it is saved

---
 pygmo_fwork/optichem/morris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygmo_fwork/optichem/morris.py b/pygmo_fwork/optichem/morris.py
index f67c08b..7670c98 100644
--- a/pygmo_fwork/optichem/morris.py
+++ b/pygmo_fwork/optichem/morris.py
@@ -407,7 +407,7 @@ class MorrisMethod(object):
                 if not meta_meta['trajectory_type'] == traj_type:
                     raise MorrisCoherenceError(
                         'Trajectory type is not coherent with previous morris trajectories for this Morris Run ID')
-                if not meta_meta['model_backend'] == self.model_backend:
+                if not meta_meta['model_backend'] == self.model_backend.lower():
                     raise MorrisCoherenceError(
                         'Model backend is not coherent with previous morris trajectories for this Morris Run ID')
 
-- 
2.43.0


From 98544b05692d6c778403a49265d147be88821512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 21/26] fix: never remove the important species implicitly in
 the reduction

---
 pygmo_fwork/optichem/reduction.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygmo_fwork/optichem/reduction.py b/pygmo_fwork/optichem/reduction.py
index 09066b5..ae82f64 100644
--- a/pygmo_fwork/optichem/reduction.py
+++ b/pygmo_fwork/optichem/reduction.py
@@ -216,6 +216,11 @@ class ReductionIterator(object):
         try:
             self.model.model.chemistry.disable(species=[species])
             removed_successfully = True
+            if not set(self.important_outputs).isdisjoint(
+                    species_left_before_remove - set(self.model.model.chemistry.get_species_name())):
+                # one of the important species would be removed implicitly, restore the chemistry and skip the species.
+                removed_successfully = False
+                self.model.model.chemistry.load_chemistry_attributes(restore_chem_attrib_path)
         except ChemistryDisableError:  # species could not even be disabled... will be skipped.
             removed_successfully = False
         if removed_successfully:
-- 
2.43.0


From 584a174fad3eca08114ac450706a89e9fc96e3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:37 +0000
Subject: [PATCH 22/26] fix: overrides of arrh_a are refused when negative or
 when the reaction has no unit for it

---
 plaschem/chemistry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 077621b..d3df6bc 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -427,6 +427,12 @@ class Chemistry(object):
         # the same goes for numbers given as str, the getters need to return (and scale) numbers
         if type(value) in (np.float64, str):
             value = float(value)
+        # the same conditions as for the original value (see Reaction.set_reaction_attribute):
+        if attrib == 'arrh_a' and value is not None:
+            if self.get_reaction(r_id).get_unit('arrh_a') is None:
+                raise ReactionAttributeError('Reaction {} does not define the arrh_a unit!'.format(r_id))
+            if value < 0:
+                raise ReactionAttributeError('Arrhenius parameter arrh_a needs to be non-negative!')
         self.adhoc_reactions_attributes[attrib].at[r_id] = value
 
     def reset_adhoc_reactions_attributes(self, attrib):
-- 
2.43.0


From 01385d2e063544da9515ee0231495577252b4e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 23/26] fix: an override of None does not override anything
 instead of breaking the views

---
 plaschem/chemistry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index d3df6bc..aa4c29a 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -374,7 +374,7 @@ class Chemistry(object):
         # the same goes for numbers given as str, the getters need to return (and scale) numbers
         if type(value) in (np.float64, str):
             value = float(value)
-        if attrib == 'ret_coefs':
+        if attrib == 'ret_coefs' and value is not None:
             # verify the consistency of the chemistry with new return species
             species_names_pool = set(self.get_species_name(special=True).values)
             for ret_sp_name in value.keys():
@@ -734,6 +734,8 @@ class Chemistry(object):
         for sp_id in self.adhoc_species_attributes['ret_coefs'].index:
             if sp_id not in species_ret_coefs.index:
                 continue  # masked out by the disabled/special/protected criteria
+            if self.adhoc_species_attributes['ret_coefs'].at[sp_id] is None:
+                continue  # None does not override anything (as for the other attributes)
             species_ret_coefs.at[sp_id] = copy.deepcopy(self.adhoc_species_attributes['ret_coefs'].at[sp_id])
         # override for all species whose stick_coefs are 0.:
         species_stick_coefs = self.get_species_stick_coef(disabled=disabled, special=special, protected=protected)
@@ -795,7 +797,7 @@ class Chemistry(object):
         reactions = self.get_reactions(disabled=disabled)
         reactions_arrh_a = pd.Series([r.get_arrh_a(si_units=si_units) for r in reactions], index=reactions.index)
         # adhoc changes (here I need to take care of the SI conversion as well!):
-        adhoc_arrh_a = self.adhoc_reactions_attributes['arrh_a'].copy()
+        adhoc_arrh_a = self.adhoc_reactions_attributes['arrh_a'].dropna()  # this is a copy
         if si_units:
             for r_id in adhoc_arrh_a.index:
                 orig_unit = self.get_reaction(r_id).get_unit('arrh_a')
-- 
2.43.0


From 0a2b2f9eef6e8207a32b7c0a91c3e045161a4cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:00 +0000
Subject: [PATCH 24/26] fix: the state of a chemistry with an override of None
 could not be saved

---
 plaschem/chemistry.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index aa4c29a..06f7c0b 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -479,14 +479,20 @@ class Chemistry(object):
             for sp_i in self.adhoc_species_attributes[attr].index:
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
-                attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
+                if attr_value is None or attr_value != attr_value:  # pandas might have turned None into nan
+                    attr_value = None
+                else:
+                    attr_value = RP.allowed_attribute_types[attr][0](attr_value)  # using RP.allowed_types lists
                 adhoc_species_attributes.append([str(attr), int(sp_i), attr_value])
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
             for r_i in self.adhoc_reactions_attributes[attr].index:
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
-                attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
+                if attr_value is None or attr_value != attr_value:  # pandas might have turned None into nan
+                    attr_value = None
+                else:
+                    attr_value = Reaction.allowed_attribute_types[attr][0](attr_value)
                 adhoc_reactions_attributes.append([str(attr), int(r_i), attr_value])
 
         xml_path = str(self.xml_path) if self.xml_path else None
-- 
2.43.0


From adbfd5ea741bc026355bad220218523a03b72ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:58 +0000
Subject: [PATCH 25/26] fix: model parameters changed together with the passed
 power and time series

---
 pygmo_fwork/pygmol/model_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygmo_fwork/pygmol/model_parameters.py b/pygmo_fwork/pygmol/model_parameters.py
index 7b5a0fa..e1cdafc 100644
--- a/pygmo_fwork/pygmol/model_parameters.py
+++ b/pygmo_fwork/pygmol/model_parameters.py
@@ -102,7 +102,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(power, number_type='non-negative')
         if self._time_array is not None and len(self._time_array) != len(power_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._power_array = power_array
+        self._power_array = list(power_array)  # a copy: not to change together with the passed collection
 
     def get_power(self):
         """Returns the power values.
@@ -125,7 +125,7 @@ class _ModelParametersPower(TypeCheck):
             self.assert_is_number(time, number_type='any')
         if self._power_array is not None and len(self._power_array) != len(time_array):
             raise ModelParametersConsistencyError('"power" and "t_power" parameters are inconsistent sizes!')
-        self._time_array = time_array
+        self._time_array = list(time_array)  # a copy: not to change together with the passed collection
 
     def get_time(self):
         """Returns the time values corresponding to the power values.
-- 
2.43.0


From 96a9b13aaaea236c57573fec82193f70d568e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:55 +0000
Subject: [PATCH 26/26] fix: the saved state does not depend on the order in
 which overrides were made

Chemistry.check_coherence refused a file saved in the same state when the
ad-hoc attributes had been set in another order.
---
 plaschem/chemistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plaschem/chemistry.py b/plaschem/chemistry.py
index 06f7c0b..82d54a7 100644
--- a/plaschem/chemistry.py
+++ b/plaschem/chemistry.py
@@ -476,7 +476,7 @@ class Chemistry(object):
 
         adhoc_species_attributes = []
         for attr in self.adhoc_species_attributes:
-            for sp_i in self.adhoc_species_attributes[attr].index:
+            for sp_i in sorted(self.adhoc_species_attributes[attr].index):  # the same for any order of the changes
                 attr_value = self.adhoc_species_attributes[attr].at[sp_i]
                 # need to explicitly convert the value into the correct datatype (numpy data-types play up in yaml)
                 if attr_value is None or attr_value != attr_value:  # pandas might have turned None into nan
@@ -487,7 +487,7 @@ class Chemistry(object):
 
         adhoc_reactions_attributes = []
         for attr in self.adhoc_reactions_attributes:
-            for r_i in self.adhoc_reactions_attributes[attr].index:
+            for r_i in sorted(self.adhoc_reactions_attributes[attr].index):
                 attr_value = self.adhoc_reactions_attributes[attr].at[r_i]
                 if attr_value is None or attr_value != attr_value:  # pandas might have turned None into nan
                     attr_value = None
-- 
2.43.0

