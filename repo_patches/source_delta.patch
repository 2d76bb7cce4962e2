From 5003f6cd6e44614d8e3b5353a1fd72d183d6b134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 01/81] fix: write_sampled_data uses DataFrame.items, iteritems
 no longer exists in pandas 2

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From c624eded44993468449e4778827779312441465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 02/81] fix: an energy equal to min_e maps to the lowest energy
 group instead of raising KeyError

---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..4e11f4b 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -298,6 +298,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
     group_nums[bins_too_high] = 1
+    # an energy exactly on min_e is inside of the range, it belongs to the lowest energy group
+    group_nums[group_nums > num_groups] = num_groups
 
     std_dev_mapped_to_e_groups = multi_group_val[group_nums].values
 
-- 
2.43.0


From e1d52939e715f7603966f3c217fa8581aba2d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 03/81] fix: AceEditor accepts an explicitly requested
 temperature that is on the ACE file

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..5d28678 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in temperatures:
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From a5b4aef46c4157e60706ed945f89d66594119cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 04/81] fix: a zero pointwise cross section stays zero unless
 its group mean is zero

---
 ASAPy/XsecSampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 4e11f4b..979b1a2 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -756,8 +756,10 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
+                # in case we get a 0 group mean, set a 0 xsec to 1.0. The sample_df sets rel_dev to the sampled value there.
+                # A 0 xsec in any other group (threshold) or outside of the groups must stay 0
+                group_mean = map_groups_to_continuous(e, xsec['e high'], xsec['x-sec(1)'], min_e=xsec['e low'].min())
+                original_sigma[(original_sigma == 0) & (group_mean == 0)] = 1
 
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
-- 
2.43.0


From 04a0f65b93145efc4597b8a145133f433b2bc230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 05/81] fix: relative samples of a zero mean group are finite
 when the group was sampled

---
 ASAPy/XsecSampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 979b1a2..040909b 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -382,9 +382,10 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
+    # if a NaN or inf is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
     # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    zero_mean_samples = ~np.isfinite(sample_df)
+    sample_df[zero_mean_samples] = sample_df_full_vals[zero_mean_samples]
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From 3e388b6a810e032e75c5fb90610aac69231b88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 06/81] fix: write_sampled_data writes the samples all MTs have
 in common instead of raising KeyError

---
 ASAPy/XsecSampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 040909b..a2bda23 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -735,7 +735,9 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].items():
+    # mts may have a different number of samples left after removing negatives, only the common ones can be written
+    num_common_samples = min(sample_df_rel.shape[1] for sample_df_rel in sample_dfs_rel)
+    for sample_number in range(num_common_samples):
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From 884ac65eb93eba2c7e69df968d9b9b4550a040c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 07/81] fix: do not sample variables with a zero correlation
 diagonal when no other variable is fixed

---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..58afa67 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = list(set_zero_corr_to_zero)
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From 96ad001a33d4b9b5461224bf62392429a161255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 08/81] fix: undo the pivoting of gmw_cholesky before
 correlating samples with its factor

---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 58afa67..1ed4710 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -366,7 +366,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -375,7 +375,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From 2b3a8901dd064809d15a2da017d7310c90d44268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 09/81] fix: uniform samples are centered on the mean and have
 the requested standard deviation

---
 ASAPy/CovManipulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 1ed4710..202ec6f 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -398,6 +398,10 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         distro_to_sample_from = sci_norm
 
     elif distro == 'uniform':
+        # scipy's uniform spans [loc, loc + scale], use the interval centered on the mean with the given std dev
+        half_width = 3 ** 0.5 * np.array(std_dev)
+        mean_values = np.array(mean_values) - half_width
+        std_dev = 2 * half_width
         distro_to_sample_from = uniform
 
     else:
-- 
2.43.0


From b5713f4a0568b37e719716c870f2de3d609590dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 10/81] fix: write_ace does not append an empty line when the
 last line is full

---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5d28678..b3e72cc 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -506,7 +506,7 @@ class WriteAce:
                     values_printed_coutner = 0
 
             # ensure a new line at EOF
-            if values_printed_coutner < 4:
+            if values_printed_coutner > 0:
                 f.write('\n')
 
 if __name__ == "__main__":
-- 
2.43.0


From e919577723d8ab6d8ea31403ddad99475071648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 11/81] fix: sum rules reach 101, 27, 3 and 1 from every
 constituent on the ACE file

---
 ASAPy/AceIO.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index b3e72cc..6190641 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -336,10 +336,16 @@ class AceEditor:
         mt_105 = list(range(700, 750))
         mt_106 = list(range(750, 800))
         mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
-                  182, 191, 192, 193, 197]
+
+        def mt_or_parts(mt, parts):
+            # a summed mt that is not present is represented by its constituents
+            return [mt] if mt in self.all_mts else parts
+
+        mt_101 = [102, *mt_or_parts(103, mt_103), *mt_or_parts(104, mt_104), *mt_or_parts(105, mt_105),
+                  *mt_or_parts(106, mt_106), *mt_or_parts(107, mt_107), 108, 109, 111, 112, 113, 114, 115, 116, 117,
+                  155, 182, 191, 192, 193, 197]
         mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
+        mt_27 = [*mt_or_parts(18, mt_18), *mt_or_parts(101, mt_101)]  # has 18 and 101 which are sums themselves
 
         mt_16 = list(range(875, 892))
         mt_4 = list(range(50, 92))
@@ -347,8 +353,9 @@ class AceEditor:
         #         45, 152, 153, 154, *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
 
         # according to https://t2.lanl.gov/nis/endf/mts.html
-        mt_3 = [4, 5, 11, 16, 17, 18, *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)),
-                *list(range(102, 118))]
+        mt_3 = [*mt_or_parts(4, mt_4), 5, 11, *mt_or_parts(16, mt_16), 17, *mt_or_parts(18, mt_18),
+                *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)), *mt_101, 152, 153, 154,
+                *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
 
         mt_1 = [2, *mt_3]  # contains 3 which is a sum
 
-- 
2.43.0


From fec802a95d387178e954036062e08a1a1958f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 12/81] fix: XsecSampler functions can use os and argparse when
 the module is imported

---
 ASAPy/XsecSampler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index a2bda23..8760894 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -5,6 +5,8 @@ import scipy.linalg as LA
 from matplotlib import gridspec, cm
 from matplotlib.colors import ListedColormap
 from matplotlib.ticker import FormatStrFormatter
+import argparse
+import os
 import warnings
 
 from ASAPy import CovManipulation
@@ -834,9 +836,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From 47b772c68bcd610c2a002b9b7871a00ac3710a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:40 +0000
Subject: [PATCH 13/81] fix: sample the MTs of the nuclide on the ACE file, not
 those of every nuclide in the store

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 8760894..d9c9076 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -903,7 +903,7 @@ if __name__ == "__main__":
         else:
             # read cov store keys for mts (/ZAID/MT/ZAID/MT)
             with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
-                mts = {int(i.split('/')[2]) for i in h}
+                mts = {int(i.split('/')[2]) for i in h if i.split('/')[1] == zaid}
                 mts = sorted(list(mts))
 
         # remove mt's not in the ACE file and print to the user (todo: log)
-- 
2.43.0


From b9429b3a6b6ec3a75e02e80cc0ea1f29fbfe981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 14/81] fix: purr and acer read the last PENDF tape, not the
 last tape of errorr

---
 ASAPy/njoy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..2745e6c 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -509,6 +509,9 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         commands += _TEMPLATE_BROADR
         nlast = nbroadr
 
+    # last PENDF tape written so far, heatr/purr/acer continue from it no matter how many tapes errorr used
+    npendf_last = nlast
+
     if errorr:
         if cov_energy_groups is None:
             raise Exception("Please provide a cov_energy_groups input.")
@@ -633,23 +636,25 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
         nlast = nheatr
+        npendf_last = nheatr
 
     # purr
     if purr:
-        npurr_in = nlast
-        npurr = npurr_in + 1
+        npurr_in = npendf_last
+        npurr = nlast + 1
         commands += _TEMPLATE_PURR
         nlast = npurr
+        npendf_last = npurr
 
     commands = commands.format(**locals())
 
     # acer
     if acer:
-        nacer_in = nlast
+        nacer_in = npendf_last
         fname = '{}_{:.1f}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
-            nace = nacer_in + 1 + 2*i
+            nace = nlast + 1 + 2*i
             ndir = nace + 1
             ext = '{:02}'.format(i + 1)
             commands += _TEMPLATE_ACER.format(**locals())
-- 
2.43.0


From 8715bea71bed655596c7ed61341fac008b2c8233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 15/81] fix: make_njoy_run(run=True) runs NJOY and writes the
 ACE and xsdir files

---
 ASAPy/njoy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2745e6c..04964ba 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -393,6 +393,10 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an option called run
+_run_njoy = run
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -664,7 +668,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
@@ -682,6 +686,10 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE and xsdir files
+                    ace_file.write(text)
+                    xsdir_file.write(open(fname.format(xsdir, temperature), 'r').read())
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From 609313ce138a19b712a40ff664d8a97b04198980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 16/81] fix: make_pendf does not ask for covariances, which
 need energy groups

---
 ASAPy/njoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 04964ba..3834dc0 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -419,7 +419,7 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
-- 
2.43.0


From a90c76a29893c68d90b79981c83fb2dda4caca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 17/81] fix: integrals of lin-log, flat log-lin and 1/x log-log
 tables are exact instead of wrong or NaN

---
 ASAPy/data/function.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..1057571 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -295,18 +295,27 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + \
+                                            m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
                 m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                # constant where both values are equal (m = 0)
+                flat = m == 0
+                m = np.where(flat, 1., m)
+                partial_sum[i_low:i_high] = np.where(
+                    flat, y0*(x1 - x0), y0/m*(np.exp(m*(x1 - x0)) - 1))
 
             elif self.interpolation[k] == 5:
                 # Log-log
                 m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                # the integral of 1/x is a logarithm (m = -1)
+                inverse = m == -1
+                m = np.where(inverse, 0., m)
+                partial_sum[i_low:i_high] = np.where(
+                    inverse, y0*x0*np.log(x1/x0),
+                    y0/((m + 1)*x0**m)*(x1**(m + 1) - x0**(m + 1)))
 
             i_low = i_high
 
-- 
2.43.0


From d565322cf43a0817c436b5bdd174a6b65b35cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 18/81] fix: a tabulated function evaluated at integers is not
 truncated to integers

---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 1057571..da70ed6 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -155,7 +155,7 @@ class Tabulated1D(Function1D):
         # Check if input is array or scalar
         if isinstance(x, Iterable):
             iterable = True
-            x = np.array(x)
+            x = np.array(x, dtype=float)
         else:
             iterable = False
             x = np.array([x], dtype=float)
-- 
2.43.0


From 6777a7ea6cd77f0c1f426c517dfc19f45bd22c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:54 +0000
Subject: [PATCH 19/81] fix: only points that equal an end point to precision
 get its value, not all within 1e-5 of it

---
 ASAPy/data/function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index da70ed6..bf5ab71 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -204,8 +204,8 @@ class Tabulated1D(Function1D):
 
         # In some cases, x values might be outside the tabulated region due only
         # to precision, so we check if they're close and set them equal if so.
-        y[np.isclose(x, self.x[0], atol=1e-14)] = self.y[0]
-        y[np.isclose(x, self.x[-1], atol=1e-14)] = self.y[-1]
+        y[np.isclose(x, self.x[0], rtol=1e-12, atol=1e-14)] = self.y[0]
+        y[np.isclose(x, self.x[-1], rtol=1e-12, atol=1e-14)] = self.y[-1]
 
         return y if iterable else y[0]
 
-- 
2.43.0


From 9d9bbd4434f161d1ef6ad9d6a53717256f66c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 20/81] fix: selected tables and libraries of several tables
 are read from text ACE files (no relative seeks in text files)

---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..452840d 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # the first line of XSS has been read with the header
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From d3d646c31c86a9ea570778be1fa3bb4dd1f98c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 21/81] fix: WriteAce keeps all comment lines of a 2.0 header
 in the header

---
 ASAPy/AceIO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 6190641..fbdbde0 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -435,7 +435,8 @@ class WriteAce:
             lines = f.readlines()
 
         # new type header: 2.0.0. (decimal in 2nd place of first word)
-        number_of_header_lines = [15 if lines[0].split()[0][1] == '.' else 12][0]
+        # its second line tells how many comment lines follow
+        number_of_header_lines = 12 + int(lines[1].split()[3]) if lines[0].split()[0][1] == '.' else 12
 
         header_lines = lines[0:number_of_header_lines]
 
-- 
2.43.0


From edebc2036536a79323fd7b2a28253658b608c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 22/81] fix: WriteAce replaces whole values only, not the
 digits of a negative value or of one with a longer exponent

---
 ASAPy/AceIO.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index fbdbde0..a713979 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -485,16 +485,14 @@ class WriteAce:
 
         original_str_line = self.format_mcnp(array)
 
-        try:
-            first_idx_of_data = self.single_line.index(original_str_line)
-        except ValueError:
-            raise ValueError("Inputted string not found in the ace file.")
+        # only whole values match, not the digits of a negative value or of one with a longer exponent
+        whole_values = re.compile(r'(?<!\S)' + re.escape(original_str_line) + r'(?!\S)')
 
-        last_idx_of_data = first_idx_of_data + len(original_str_line)
+        if not whole_values.search(self.single_line):
+            raise ValueError("Inputted string not found in the ace file.")
 
         replace_with_line = self.format_mcnp(replace_with)
-        self.single_line = self.single_line.replace(self.single_line[first_idx_of_data: last_idx_of_data],
-                                                    replace_with_line, max_replaces)
+        self.single_line = whole_values.sub(replace_with_line, self.single_line, count=max_replaces)
 
     def write_ace(self, ace_path_to_write):
 
-- 
2.43.0


From 7349660ef68e7060e6eb441dd4a5718c02b5e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 23/81] fix: set_chi_distro checks the size of every density
 before changing any

---
 ASAPy/AceIO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index a713979..a24ad22 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -164,9 +164,10 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            for distro, pdf_to_set in zip(fission_chi_prompt.energy_out, pdf):
+                if len(distro) != len(pdf_to_set):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(pdf_to_set), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From 6865668b64c27a961f58ab0d563f9b4601d9f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 24/81] fix: adjusting 101, 27 or 3 itself reaches the sums
 that contain it

---
 ASAPy/AceIO.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index a24ad22..c14ea74 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -354,11 +354,11 @@ class AceEditor:
         #         45, 152, 153, 154, *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
 
         # according to https://t2.lanl.gov/nis/endf/mts.html
-        mt_3 = [*mt_or_parts(4, mt_4), 5, 11, *mt_or_parts(16, mt_16), 17, *mt_or_parts(18, mt_18),
-                *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)), *mt_101, 152, 153, 154,
+        mt_3 = [*mt_or_parts(4, mt_4), 5, 11, *mt_or_parts(16, mt_16), 17, *mt_or_parts(27, mt_27),
+                *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)), 152, 153, 154,
                 *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
 
-        mt_1 = [2, *mt_3]  # contains 3 which is a sum
+        mt_1 = [2, *mt_or_parts(3, mt_3)]  # contains 3 which is a sum
 
         # go from highest to lowest since lower ENDF #'s are not in higher #'s, except 18 which is in 27 so do 18 first
         sum_mts_list = [mt_107, mt_106, mt_105, mt_104, mt_103, mt_101, mt_18, mt_27, mt_16, mt_4, mt_3, mt_1]
-- 
2.43.0


From 3778fd039416931f1c8df5dcd129f9aa42dc3011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:23 +0000
Subject: [PATCH 25/81] fix: a table with photon production for MT=3 and no
 disappearance loads instead of raising UnboundLocalError

---
 ASAPy/data/neutron.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..5a13323 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -665,12 +665,10 @@ class IncidentNeutron(EqualityMixin):
                 # Determine redundant cross section
                 rx = data._get_redundant_reaction(mt, mts)
                 rx.products += _get_photon_products_ace(ace, rx)
-                if mt == 3:
-                    # ASAPy: instead of summing all the bits, just use the known ACE file absorption xsec
-                    # which is mt=3 from the ace file. This is used because the sum causes round-off error making
+                if mt != 3:
+                    # ASAPy: instead of summing all the bits of mt=3, the known ACE file absorption xsec (mt=101 above)
+                    # is used. This is used because the sum causes round-off error making
                     # the lazy ASAPy ace replace not work on mt=3
-                    data.reactions[101] = absorption
-                else:
                     data.reactions[mt] = rx
 
         # For transmutation reactions, sometimes only individual levels are
-- 
2.43.0


From 3e50252d5694ffda38221547f3463d8032241964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:01 +0000
Subject: [PATCH 26/81] fix: a last ACE value written without exponent letter
 is not read as its mantissa

---
 ASAPy/data/ace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 452840d..bd1d3b8 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -410,9 +410,10 @@ class Library(EqualityMixin):
             # get written without the 'e'. Thus, what we do here is check
             # whether the xss array is of the right size (if a number like
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
-            # after it). If it's too short, then we apply the ENDF float regular
-            # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # after it; on the last line the size does not tell). If it's too
+            # short, then we apply the ENDF float regular expression. We don't
+            # do this by default because it's expensive!
+            if xss.size != nxs[1] + 1 or ENDF_FLOAT_RE.search(lines[11 + n_lines]):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From 124f000d72335a6a7d720bd716aab0629b399788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:22 +0000
Subject: [PATCH 27/81] fix: boxer2mat checks the size of continuation pages
 before reading them over other data

---
 boxer2mat/boxer2mat.f | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boxer2mat/boxer2mat.f b/boxer2mat/boxer2mat.f
index ca64bbc..97c55f3 100644
--- a/boxer2mat/boxer2mat.f
+++ b/boxer2mat/boxer2mat.f
@@ -119,6 +119,8 @@ C     READ IN NEW PAGE OF DATA FROM NIN
       IF (J.NE.NCOL) STOP 11
       READ (NIN,210) ITYPEH,(IB(K),K=1,9),MATH,MTH,MAT1H,MT1H,NVAL,NVF
      1 ,NCON,NCF,NROWM,NROWH,NCOLH
+      IF (NVAL.GT.NVMAX) STOP 3
+      IF (NCON.GT.NCMAX) STOP 4
       CALL SETFOR (NVF,NCF,NOUT,IVFT,ICFT)
       IF (NVAL.GT.0) READ (NIN,IVFT) (XVAL(K),K=1,NVAL)
       IF (NCON.GT.0) READ (NIN,ICFT) (ICON(K),K=1,NCON)
-- 
2.43.0


From 1652950bd48415974c85d878c41054e89da07136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 28/81] fix: reactions without a name (such as lumped
 covariances, MT 851) can be skipped and sampled

---
 ASAPy/CovManipulation.py | 2 +-
 ASAPy/EndfToCov.py       | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 202ec6f..0f05fde 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -342,7 +342,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         # we must treat the assumed correlations to be normal and transform them to lognormal to sample correctly
         # Large anti and positive correlations along with large relative uncertainties are not allowed for log normal
         if mt is not None:
-            print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt={mt} {REACTION_NAME[mt]}")
+            print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt={mt} {REACTION_NAME.get(mt, 'REACTION NAME NOT FOUND')}")
         else:
             print(f"Adjust cov from assumed normal to lognormal via G. Zerovnik for mt= NOT PROVIDED")
         log_corr = np.zeros(desired_corr.shape)
diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index dfbef89..d56032e 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -350,11 +350,13 @@ def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_gr
 def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}_matrix.txt',
                       output_h5_format='u235_102_{0}g_cov.h5'):
 
+    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
+
     try:
         rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
         group_bounds, xsec, std_dev, cov = rbo.get_block_data()
     except RuntimeError as e:
-        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}")
+        print(f"Skipping zaid/mt {zaid}/{mt} {rxn} in due to boxer output errors: {e}")
         return
 
     groups = cov.shape[0]
@@ -362,7 +364,6 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
 
     # covert the cov read to corr
     corr = CovManipulation.cov_to_correlation(cov)
-    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
     if np.any(np.abs(corr) > 1):
         print(f"Cov matrix for zaid/mt={zaid}/{mt} {rxn} nis ill-composed. When converting to correlation matrix, |values| greater than 1.0 were found, setting these to -1/1 as needed")
 
-- 
2.43.0


From 387f9c71a924c3a92f90ac205f4ff36cf758061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:35 +0000
Subject: [PATCH 29/81] fix: a constant tabulated nubar is tabulated, it can be
 read and edited

---
 ASAPy/AceIO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index c14ea74..430e019 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -1,5 +1,6 @@
 import re
 from .data import neutron
+from .data.function import Tabulated1D
 import numpy as np
 import os
 import copy
@@ -220,8 +221,8 @@ class AceEditor:
 
         prod = fiss.derived_products[0]
 
-        label = prod.__repr__()
-        if 'tabulated' not in label:
+        # the label of a product shows the value of a constant table, not that it is tabulated
+        if not isinstance(prod.yield_, Tabulated1D):
             raise TypeError(
                 "Fission nu distribition is not stored in the tabular format (ASAPy does not support poly) " + self.ace_path)
 
-- 
2.43.0


From a25cfe4172f69fa90bc966555897678ecad1b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:04 +0000
Subject: [PATCH 30/81] fix: a single sample can be drawn (one score has no
 spread to scale by)

---
 ASAPy/CovManipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 0f05fde..afffb7d 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -23,7 +23,9 @@ def col_independent_matrix(n, d):
     """
     x = np.arange(1, (n+1))
     p = sp.stats.norm.ppf(x/(n+1))
-    p = (p - p.mean()) / p.std()
+    if n > 1:
+        # a single score has no spread to scale by
+        p = (p - p.mean()) / p.std()
     score = np.zeros((n, d))
     for j in range(0, score.shape[1]):
         score[:, j] = np.random.permutation(p)
-- 
2.43.0


From 0d44c446330d9db3b90499d08aeab6a98ee0352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 31/81] fix: heating can be added without Doppler broadening
 (heatr continues from the newest pointwise tape)

---
 ASAPy/njoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 3834dc0..86b1f06 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -636,7 +636,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
     # heatr
     if heatr:
-        nheatr_in = nbroadr
+        nheatr_in = npendf_last
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
         nlast = nheatr
-- 
2.43.0


From 51320898bef1d2b3bb6945c3745c5e4e3d035d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 32/81] fix: nu and chi group averages get the user's weight
 function

---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 86b1f06..8ac3584 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # its own card; no newline needed at the end since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -579,7 +579,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = nbroadr  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 652dd79097b4a3fd13e7ccfbfe6899167b3622c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 33/81] fix: reading an evaluation from an open tape leaves it
 open, so that all materials can be read

---
 ASAPy/endf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 042051a..96e7002 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -366,7 +366,9 @@ class Evaluation(object):
 
         self._read_header()
 
-        fh.close()
+        # a file given open is left to the caller, positioned after this material
+        if fh is not filename_or_obj:
+            fh.close()
 
     def _read_header(self):
         file_obj = io.StringIO(self.section[1, 451])
-- 
2.43.0


From 543274b75768f519598632eee4615dfabe2d6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 34/81] fix: each element of a compact correlation record goes
 to its own column

---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From 6fe6f8b378d7c9ed71502d4307bcec140beaf9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:21 +0000
Subject: [PATCH 35/81] fix: covariances from integer deviations are not
 truncated to integers

---
 ASAPy/CovManipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index afffb7d..b1a5b1a 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -72,7 +72,7 @@ def correlation_to_cov(std, corr):
     # given R_{ij} = \frac{C_{ij}}{\sqrt{C_{ii} C_{jj}}} and
     # knowing C_ii = (std_dev of variable i)**2 and C_jj = (std_dev of variable j)**2
 
-    cov = np.diag(std**2)
+    cov = np.diag(std**2.0)
 
     shape = len(std)
     for i in range(shape):
-- 
2.43.0


From 891735e887808524ea9277a6aaf8d49147c3e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 36/81] fix: nubar covariances without other reactions are
 converted from their own tape, not from a plot

---
 ASAPy/EndfToCov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index d56032e..d1eb08e 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -331,8 +331,8 @@ def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_gr
                                                         iwt_fluxweight=iwt_fluxweight,
                                                         user_flux_weight_vals=user_flux_weight_vals, nu=nu, chi=chi)
 
-    # we know the order of tape out {covout1, plotout1,, covout2, plotout2, ...}, just get the cov outs
-    cover_tapes = {item: value for item, value in list(tapeout.items())[0::2]}
+    # just get the cov outs (without mts there is no plot for each of them)
+    cover_tapes = {item: value for item, value in tapeout.items() if value.startswith("covr")}
     print(cover_tapes)
 
     if nu:
-- 
2.43.0


From 33a7a15cc25a3a14310ad20ba131860d3cb0bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:50 +0000
Subject: [PATCH 37/81] fix: the covariance chain does not take files left by
 an earlier run for output of a program that wrote none

---
 ASAPy/EndfToCov.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index d1eb08e..6cb2a0a 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -74,6 +74,10 @@ def _run_cover_chain(njoy_commands, tapein, tapeout, cover_tapes, mat_num, mts,
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
             shutil.copy(filename, tmpfilename)
 
+        # never take what an earlier run left in this folder for output of this run
+        for name in ['output'] + ['tape{}'.format(tape_num) for tape_num in tapeout]:
+            _remove_if_exists(os.path.join(tmpdir, name))
+
         run_program(njoy_commands, njoy_exec, stdout, tmpdir, os.path.join(output_base_path, input_filename))
 
         # Copy output files back to original directory
@@ -101,11 +105,17 @@ def _run_cover_chain(njoy_commands, tapein, tapeout, cover_tapes, mat_num, mts,
                 else:
                     boxer_commands = _BOXER_TEMPLATE_COV.format(mat=mat_num, mt=mt)
 
+                _remove_if_exists(tmpboxerfilename_out)
                 run_program(boxer_commands, boxer_exec, stdout, tmpdir, os.path.join(output_base_path, input_filename + "boxer.txt"))
                 # save the output locally
                 shutil.move(tmpboxerfilename_out, os.path.join(output_base_path, file_name + "_" + str(mt) + "_matrix.txt"))
 
 
+def _remove_if_exists(path):
+    if os.path.isfile(path):
+        os.remove(path)
+
+
 def run_program(commands, executable_path, stdout, run_dir, write_input_file=None):
     """
     Run
-- 
2.43.0


From 967748a8aa7386d525bbaab9ab8d3dfa2d682280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:42 +0000
Subject: [PATCH 38/81] fix: read HDF5 datasets with [()], h5py no longer has
 Dataset.value

---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index bf5ab71..406b5e4 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -357,8 +357,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[()][0, :]
+        y = dataset[()][1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -442,7 +442,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..642b2da 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(np.bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 5a13323..26be078 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..7141212 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[()][0, :]
+        factors = dataset[()][1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From f4b78fbe55fa37e6e9515118a5665d49e21b1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 39/81] fix: correlated distributions with discrete lines can
 be written to HDF5

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From 08cb9b13c7d16f6f2a6a038616b07a0677135ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 40/81] fix: rebuild the fission cross section before the sums
 it is part of when reading HDF5

---
 ASAPy/data/neutron.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 26be078..db97ee1 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -541,8 +541,10 @@ class IncidentNeutron(EqualityMixin):
                     rx.derived_products.append(Product.from_hdf5(tgroup))
 
         # Build redundant reactions. Start from the highest MT number because
-        # high MTs never depend on lower MTs.
-        for mt_sum in sorted(SUM_RULES, reverse=True):
+        # high MTs never depend on lower MTs, except that fission (MT=18) is
+        # part of MT=27 and has to be built before it.
+        for mt_sum in sorted(SUM_RULES, key=lambda mt: (mt == 18, mt),
+                             reverse=True):
             if mt_sum not in data:
                 rxs = [data[mt] for mt in SUM_RULES[mt_sum] if mt in data]
                 if len(rxs) > 0:
-- 
2.43.0


From 36b7e92b6f5943145c21562a8c72757be58881b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 41/81] fix: read HDF5 data in which a reaction is missing at
 one of the temperatures

---
 ASAPy/data/neutron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index db97ee1..ea98394 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -554,7 +554,9 @@ class IncidentNeutron(EqualityMixin):
                         tgroup = group['total_nu']
                         rx.derived_products.append(Product.from_hdf5(tgroup))
                     for T in data.temperatures:
-                        rx.xs[T] = Sum([rx_i.xs[T] for rx_i in rxs])
+                        xss = [rx_i.xs[T] for rx_i in rxs if T in rx_i.xs]
+                        if xss:
+                            rx.xs[T] = Sum(xss)
 
         # Read unresolved resonance probability tables
         if 'urr' in group:
-- 
2.43.0


From f243ef34ff3789d1f3c6c09874b47e8c395656f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 42/81] fix: read from HDF5 cross sections that end before the
 energy grid does

---
 ASAPy/data/reaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 269f571..5624181 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -938,7 +938,8 @@ class Reaction(EqualityMixin):
                             'exists.'.format(mt, T))
                     xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
-                    tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
+                    tabulated_xs = Tabulated1D(
+                        energy[T][threshold_idx:threshold_idx + len(xs)], xs)
                     tabulated_xs._threshold_idx = threshold_idx
                     rx.xs[T] = tabulated_xs
 
-- 
2.43.0


From a0076f03593567c1008ecf43680b98ace3e69567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 43/81] fix: numpy no longer has np.bool

---
 ASAPy/data/multipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 642b2da..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -369,7 +369,7 @@ class WindowedMultipole(EqualityMixin):
 
         out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'][()].astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-- 
2.43.0


From 6bb213603917f7fed076fd5d1e5ca53a46880e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:18 +0000
Subject: [PATCH 44/81] fix: data read from HDF5 can be exported again

---
 ASAPy/data/neutron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ea98394..72d03db 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -454,6 +454,11 @@ class IncidentNeutron(EqualityMixin):
                 if not (photon_rx or transmutation_rx or rx.mt == 4):
                     continue
 
+                # Sums that were built when reading HDF5 have no tabulated
+                # values and are built again
+                if any(isinstance(xs, Sum) for xs in rx.xs.values()):
+                    continue
+
             rx_group = rxs_group.create_group('reaction_{:03}'.format(rx.mt))
             rx.to_hdf5(rx_group)
 
-- 
2.43.0


From 655ece663db55f0af118cdad76363ade264a0ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 45/81] fix: the temperature of an evaluation was kept as a
 bare number in kelvin (temperatures raised TypeError)

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 72d03db..cbf6693 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -750,7 +750,7 @@ class IncidentNeutron(EqualityMixin):
 
         # Instantiate incident neutron data
         data = cls(name, atomic_number, mass_number, metastable,
-                   atomic_weight_ratio, temperature)
+                   atomic_weight_ratio, [temperature*K_BOLTZMANN])
 
         if (2, 151) in ev.section:
             data.resonances = res.Resonances.from_endf(ev)
-- 
2.43.0


From 6b7b148ea622b88c35d0c3092189c402f308263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 46/81] fix: an evaluation without resonance file could not be
 loaded

---
 ASAPy/data/neutron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cbf6693..1163cc8 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -767,7 +767,8 @@ class IncidentNeutron(EqualityMixin):
 
         # Replace cross sections for elastic, capture, fission
         try:
-            if any(isinstance(r, res._RESOLVED) for r in data.resonances):
+            if data.resonances is not None and any(
+                    isinstance(r, res._RESOLVED) for r in data.resonances):
                 for mt in (2, 102, 18):
                     if mt in data.reactions:
                         rx = data.reactions[mt]
-- 
2.43.0


From 836e079ddfb5eaa0a006065d2f1ee5a9fa20d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 47/81] fix: delayed neutron groups other than six got no
 yield, or the prompt neutrons got theirs

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 5624181..12551e9 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -406,12 +406,12 @@ def _get_fission_products_endf(ev):
             # Nu represented as polynomial
             items, coefficients = get_list_record(file_obj)
             yield_ = Polynomial(coefficients)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
         elif lnu == 2:
             # Nu represented by tabulation
             params, yield_ = get_tab1_record(file_obj)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
 
         if (5, 455) in ev.section:
-- 
2.43.0


From ce06f8737ab9c46f4c98e98dea5e96c7511dd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 48/81] fix: two-body Legendre distributions (file 6, law 2)
 lacked the zeroth coefficient

---
 ASAPy/data/reaction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 12551e9..a405f07 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -147,7 +147,8 @@ def _get_products(ev, mt):
                 energy[i] = items[1]
                 lang = items[2]
                 if lang == 0:
-                    mu.append(Legendre(values))
+                    # The zeroth order coefficient is one and not given
+                    mu.append(Legendre([1.0] + values))
                 elif lang == 12:
                     mu.append(Tabular(values[::2], values[1::2]))
                 elif lang == 14:
-- 
2.43.0


From f483097969cbc71ea7fdcea23491a5cc9a468840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 49/81] fix: only the constant term of a delayed polynomial
 yield was multiplied by the share of the group

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index a405f07..bca1178 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -454,7 +454,7 @@ def _get_fission_products_endf(ev):
                         delayed_neutron.yield_.y *= yield_.coef[0]
                     else:
                         if np.all(applicability.y == applicability.y[0]):
-                            yield_.coef[0] *= applicability.y[0]
+                            yield_.coef *= applicability.y[0]
                         else:
                             raise NotImplementedError(
                                 'Total delayed neutron yield and delayed group '
-- 
2.43.0


From 82ce03ef9b42152d37ac637efa599625bdafdb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 50/81] fix: discrete photons got the energy of the level they
 come from instead of their own

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bca1178..f698e54 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -692,7 +692,7 @@ def _get_photon_products_endf(ev, rx):
                     # TODO: Get file 15 distribution
                     pass
                 elif law == 2:
-                    energy = items[1]
+                    energy = items[0]
                     primary_flag = items[2]
                     dist.energy = DiscretePhoton(primary_flag, energy,
                                                  ev.target['mass'])
@@ -750,7 +750,7 @@ def _get_photon_products_endf(ev, rx):
                 # TODO: Get file 15 distribution
                 pass
             elif law == 2:
-                energy = items[1]
+                energy = items[0]
                 primary_flag = items[2]
                 dist.energy = DiscretePhoton(primary_flag, energy,
                                              ev.target['mass'])
-- 
2.43.0


From 7f61390979fdc5ad2d9b7b7f9b2cf70faa3b4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 51/81] fix: unsupported laws of file 6 were not read past, the
 next product was read from their data

---
 ASAPy/data/reaction.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index f698e54..83ec944 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -135,6 +135,12 @@ def _get_products(ev, mt):
                 p.distribution = [CorrelatedAngleEnergy.from_endf(file_obj)]
             elif lang == 2:
                 p.distribution = [KalbachMann.from_endf(file_obj)]
+            else:
+                # Other angular representations are not supported, but the data
+                # of the next product follow them
+                params, tab2 = get_tab2_record(file_obj)
+                for j in range(params[5]):
+                    get_list_record(file_obj)
 
         elif law == 2:
             # Discrete two-body scattering
@@ -170,8 +176,11 @@ def _get_products(ev, mt):
             pass
 
         elif law == 5:
-            # Charged particle elastic scattering
-            pass
+            # Charged particle elastic scattering is not supported, but the data
+            # of the next product follow it
+            params, tab2 = get_tab2_record(file_obj)
+            for j in range(params[5]):
+                get_list_record(file_obj)
 
         elif law == 6:
             # N-body phase-space distribution
-- 
2.43.0


From a4b870bb775be4dd67792b696e94659acc5b7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 52/81] fix: tabulated recoverable or total energies (IFC 8, 9)
 made the release unreadable

---
 ASAPy/data/fission_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/fission_energy.py b/ASAPy/data/fission_energy.py
index fa9bf15..964be54 100644
--- a/ASAPy/data/fission_energy.py
+++ b/ASAPy/data/fission_energy.py
@@ -326,6 +326,10 @@ class FissionEnergyRelease(EqualityMixin):
                 ifc = items[3]
                 name = _NAMES[ifc - 1]
 
+                # Ignore recoverable and total as above
+                if name in ('recoverable', 'total'):
+                    continue
+
                 # Replace value in dictionary
                 functions[name] = eifc
 
-- 
2.43.0


From 2c200d71b56291b02f44b30e880cd632a5ce7b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 53/81] fix: an evaluation with resolved resonance parameters
 could not be loaded (NameError: Resonances)

---
 ASAPy/data/function.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 406b5e4..7f054ea 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -628,11 +628,14 @@ class ResonancesWithBackground(EqualityMixin):
         self.mt = mt
 
     def __call__(self, x):
+        # Imported here as the resonance module imports this one
+        from .resonance import _RESOLVED
+
         # Get background cross section
         xs = self.background(x)
 
         for r in self.resonances:
-            if not isinstance(r, resonance._RESOLVED):
+            if not isinstance(r, _RESOLVED):
                 continue
 
             if isinstance(x, Iterable):
@@ -673,6 +676,8 @@ class ResonancesWithBackground(EqualityMixin):
 
     @resonances.setter
     def resonances(self, resonances):
+        # Imported here as the resonance module imports this one
+        from .resonance import Resonances
         cv.check_type('resolved resonance parameters', resonances,
                       Resonances)
         self._resonances = resonances
-- 
2.43.0


From f22f22c46be889e62025cfee11584cce4824e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 54/81] fix: the energy-dependent fission widths of unresolved
 resonances were all those of the last energy

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..dd83aee 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -1022,7 +1022,7 @@ class Unresolved(ResonanceRange):
                     gg = values[4]
                     gf = values[6:]
                     for k, gf_i in enumerate(gf):
-                        records[k].append([l, j, d, amun, gn0, gg, gf])
+                        records[k].append([l, j, d, amun, gn0, gg, gf_i])
             parameters = [pd.DataFrame(r, columns=columns) for r in records]
 
         elif formalism == 2:
-- 
2.43.0


From 9aaa2c8fc5fafb774ddb26602e64b3f663c89b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 55/81] fix: the covariance of neutron and capture widths of
 the compatible resolved format was dropped

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..95a476a 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -467,7 +467,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From dd0da9aac6d4285e8e57dadd5843f0f96df347d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 56/81] fix: only the last block of a general resolved
 covariance format was kept

---
 ASAPy/data/resonance_covariance.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 95a476a..57699c4 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -392,6 +392,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -411,11 +412,14 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gt[i], gn[i],
                                     gg[i], gf[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix, there are no
+                # covariances with the resonances of other blocks
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
-                indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                offset = cov.shape[0]
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
+                rows, cols = np.triu_indices(cov_dim)
+                cov[rows + offset, cols + offset] = cov_values
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -628,6 +632,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -647,11 +652,14 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gn[i], gg[i],
                                     gfa[i], gfb[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix, there are no
+                # covariances with the resonances of other blocks
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
-                indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                offset = cov.shape[0]
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
+                rows, cols = np.triu_indices(cov_dim)
+                cov[rows + offset, cols + offset] = cov_values
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From 09863a4db823843476c857bb1734e08b192f6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 57/81] fix: a compatible resolved covariance format with
 several l-values could not be read

---
 ASAPy/data/resonance_covariance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 57699c4..34edc09 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -456,7 +456,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         # Compatible resolved resonance format
         elif lcomp == 0:
-            cov = np.zeros([4, 4])
+            cov = np.zeros([0, 0])
             records = []
             cov_index = 0
             for i in range(nls):
@@ -468,6 +468,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov_values = one_res[6:]
                     records.append(list(res_values))
 
+                    # Pad matrix for the values of this resonance
+                    cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                 constant_values=0)
+
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
@@ -478,9 +482,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From 48b0fa6d8cb19b6ad0aaaf617a9b7e23b10b4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 58/81] fix: Reich-Moore resonances with four sampled
 parameters could not be sampled (index out of bounds)

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 34edc09..515d7c8 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -288,7 +288,7 @@ class ResonanceCovarianceRange:
                 gn = sample[1::mpar]
                 gg = sample[2::mpar]
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From 68b604d5913f60302bf819fa64554ee95ab1392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 59/81] fix: sampling doubled the off-diagonal covariances of
 the compact format

---
 ASAPy/data/resonance_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 515d7c8..fab4f9b 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -234,7 +234,8 @@ class ResonanceCovarianceRange:
         parameters = self.parameters
         cov = self.covariance
 
-        # Symmetrizing covariance matrix
+        # Symmetrizing covariance matrix (only LCOMP=2 gives both triangles)
+        cov = np.triu(cov)
         cov = cov + cov.T - np.diag(cov.diagonal())
         formalism = self.formalism
         mpar = self.mpar
-- 
2.43.0


From 69e7e0ba88242c75a4e422aac9f19f066883931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 60/81] fix: a subset of resonance covariances picked rows by
 the position in file 2 instead of in file 32

---
 ASAPy/data/resonance_covariance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index fab4f9b..58112f0 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -184,7 +184,8 @@ class ResonanceCovarianceRange:
         # Copy range and prevent change of original
         res_cov_range = copy.deepcopy(self)
 
-        parameters = self.file2res.parameters
+        # The covariance matrix is ordered as the File 32 parameters
+        parameters = self.parameters.reset_index(drop=True)
         cov = res_cov_range.covariance
         mpar = res_cov_range.mpar
         # Create mask
@@ -208,7 +209,10 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
-        res_cov_range.file2res.parameters = parameters[mask]
+        file2params = self.file2res.parameters
+        file2mask = ((file2params[parameter_str] >= bounds[0]) &
+                     (file2params[parameter_str] <= bounds[1]))
+        res_cov_range.file2res.parameters = file2params[file2mask]
         res_cov_range.covariance = cov_subset
         return res_cov_range
 
-- 
2.43.0


From 6ebe2a4a3386f870fd04085b970a41278ab2f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 61/81] fix: the covariances of every isotope were attached to
 the ranges of the first one

---
 ASAPy/data/resonance_covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58112f0..e8ff740 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -93,6 +93,7 @@ class ResonanceCovariances(Resonances):
         n_isotope = items[4]  # Number of isotopes
 
         ranges = []
+        n_previous = 0  # Number of ranges of previous isotopes
         for iso in range(n_isotope):
             items = endf.get_cont_record(file_obj)
             abundance = items[1]
@@ -115,7 +116,7 @@ class ResonanceCovariances(Resonances):
 
                 if unresolved_flag in (0, 1):
                     # Resolved resonance region
-                    resonance = resonances.ranges[j]
+                    resonance = resonances.ranges[n_previous + j]
                     erange = _FORMALISMS[formalism].from_endf(ev, file_obj,
                                                               items, resonance)
                     ranges.append(erange)
@@ -125,6 +126,8 @@ class ResonanceCovariances(Resonances):
                            'values for the unresolved region not imported.'
                     warnings.warn(warn)
 
+            n_previous += n_ranges
+
         return cls(ranges)
 
 
-- 
2.43.0


From 8288626937a436a0b65d22470ca7463ce96630ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:47 +0000
Subject: [PATCH 62/81] fix: partial fission lost its own distributions of file
 6 to those of total fission

---
 ASAPy/data/neutron.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 1163cc8..8bd8fe0 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -779,11 +779,11 @@ class IncidentNeutron(EqualityMixin):
             pass
 
         # If first-chance, second-chance, etc. fission are present, check
-        # whether energy distributions were specified in MF=5. If not, copy the
-        # energy distribution from MT=18.
+        # whether energy distributions were specified in MF=5 or MF=6. If not,
+        # copy the energy distribution from MT=18.
         for mt, rx in data.reactions.items():
             if mt in (19, 20, 21, 38):
-                if (5, mt) not in ev.section:
+                if (5, mt) not in ev.section and (6, mt) not in ev.section:
                     neutron = data.reactions[18].products[0]
                     rx.products[0].applicability = neutron.applicability
                     rx.products[0].distribution = neutron.distribution
-- 
2.43.0


From 605b9ae692efcd28cb09a7c6279afd75a373f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:03 +0000
Subject: [PATCH 63/81] fix: coherent elastic scattering used the factor of the
 next Bragg edge, and failed above the last one

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 7141212..84d5d29 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -141,8 +141,9 @@ class CoherentElastic(EqualityMixin):
     def __call__(self, E):
         if isinstance(E, Iterable):
             E = np.asarray(E)
+        # Partial sum over the edges below E, there are none below the first one
         idx = np.searchsorted(self.bragg_edges, E)
-        return self.factors[idx] / E
+        return np.concatenate(([0.], self.factors))[idx] / E
 
     def __len__(self):
         return len(self.bragg_edges)
-- 
2.43.0


From 067357abcb1140711cd2189f8d2c7fa547e012a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:03 +0000
Subject: [PATCH 64/81] fix: the name given for a thermal scattering table was
 ignored

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 84d5d29..efebaa2 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -478,7 +478,8 @@ class ThermalScattering(EqualityMixin):
 
         # Get new name that is GND-consistent
         ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From d6ec34bf96ad716734e16a774088def525936215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 65/81] fix: an unknown decay mode (10) was a list of no modes
 instead of an unknown one

---
 ASAPy/data/decay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 9373c2b..6d31237 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -59,6 +59,9 @@ def get_decay_modes(value):
         List of successive decays, e.g. ('beta-', 'neutron')
 
     """
+    # 10 is a mode of its own, not two digits
+    if value == 10.0:
+        return [_DECAY_MODES[10][0]]
     return [_DECAY_MODES[int(x)][0] for x in
             str(value).strip('0').replace('.', '')]
 
-- 
2.43.0


From 03bde00930353e4ae79ed01956ea96d43ac14ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 66/81] fix: the covariance of a continuous decay spectrum was
 an iterator that only the first reader could use

---
 ASAPy/data/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 6d31237..d29c7ba 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -445,7 +445,7 @@ class Decay(EqualityMixin):
                     if LCOV != 0:
                         items, values = get_list_record(file_obj)
                         ci['covariance_lb'] = items[3]
-                        ci['covariance'] = zip(values[0::2], values[1::2])
+                        ci['covariance'] = list(zip(values[0::2], values[1::2]))
 
                     spectrum['continuous'] = ci
 
-- 
2.43.0


From b8a3f8149e95ac69f8d453cc7d95a197595277da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 67/81] fix: photon cross sections read from ACE were zero
 below the threshold with a log-log law, giving NaN between the last zero and
 the threshold

---
 ASAPy/data/photon.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 2596d8a..c7ed728 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -506,11 +506,13 @@ class IncidentPhoton(EqualityMixin):
                 rx = PhotonReaction(mt)
                 data.reactions[mt] = rx
 
-                # Store cross section
+                # Store cross section from its threshold on (below it there is
+                # no logarithm to interpolate)
                 xs = ace.xss[idx : idx+n_energy].copy()
                 nonzero = (xs != 0.0)
                 xs[nonzero] = np.exp(xs[nonzero])
-                rx.xs = Tabulated1D(energy, xs, [n_energy], [5])
+                i = np.argmax(nonzero)
+                rx.xs = Tabulated1D(energy[i:], xs[i:], [n_energy - i], [5])
                 idx += n_energy
 
                 # Copy binding energy
@@ -905,11 +907,13 @@ class PhotonReaction(EqualityMixin):
             raise ValueError('ACE photoatomic cross sections do not have '
                              'data for MT={}.'.format(mt))
 
-        # Store cross section
+        # Store cross section from its threshold on (below it there is no
+        # logarithm to interpolate)
         xs = ace.xss[idx : idx+n].copy()
         nonzero = (xs != 0.0)
         xs[nonzero] = np.exp(xs[nonzero])
-        rx.xs = Tabulated1D(energy, xs, [n], [5])
+        i = np.argmax(nonzero)
+        rx.xs = Tabulated1D(energy[i:], xs[i:], [n - i], [5])
 
         # Get form factors for incoherent/coherent scattering
         new_format = (ace.nxs[6] > 0)
-- 
2.43.0


From 22a7cd8b7632a6c6edf60976b814bd0736d2c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:10 +0000
Subject: [PATCH 68/81] fix: the running integral of a table with a step was
 NaN from the step on

---
 ASAPy/data/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 7f054ea..9926286 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -319,6 +319,9 @@ class Tabulated1D(Function1D):
 
             i_low = i_high
 
+        # a step (two points with one abscissa) has no area
+        partial_sum[self.x[1:] == self.x[:-1]] = 0.
+
         return np.concatenate(([0.], np.cumsum(partial_sum)))
 
     def to_hdf5(self, group, name='xy'):
-- 
2.43.0


From 0a598ff7cf9ab062e26cbdce1deefdd512456732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:15 +0000
Subject: [PATCH 69/81] fix: make_ace_thermal left one file for each
 temperature and never wrote the ACE and xsdir files asked for

---
 ASAPy/njoy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 8ac3584..21bd9e4 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -838,6 +838,12 @@ def make_ace_thermal(filename, filename_thermal, temperatures=None,
         tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     run(commands, tapein, tapeout, **kwargs)
+
+    # Concatenate ACE and xsdir files together
+    with open(ace, 'w') as ace_file, open(xsdir, 'w') as xsdir_file:
+        for temperature in temperatures:
+            ace_file.write(open(fname.format(ace, temperature), 'r').read())
+            xsdir_file.write(open(fname.format(xsdir, temperature), 'r').read())
         
 if __name__ == "__main__":
     make_njoy_run('/Users/veeshy/projects/ASAPy/data/e71/tape20', temperatures=[300], ace='ace', xsdir='xsdir', pendf=None,
-- 
2.43.0


From 0848f587b5356fb78d8c37cd4701527c4dbafd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 70/81] fix: add_temperature_from_ace read nuclide identifiers
 by another convention than from_ace, so that Am242 and Am242m were refused

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 8bd8fe0..bd79a59 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -233,7 +233,7 @@ class IncidentNeutron(EqualityMixin):
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
 
-    def add_temperature_from_ace(self, ace_or_filename, metastable_scheme='nndc'):
+    def add_temperature_from_ace(self, ace_or_filename, metastable_scheme='mcnp'):
         """Append data from an ACE file at a different temperature.
 
         Parameters
-- 
2.43.0


From d0089479e528e2b7814890893b06d3841d057f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 71/81] fix: IncidentNeutron.from_njoy took the Am242m tables
 it made for the ground state of Am242

---
 ASAPy/data/neutron.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index bd79a59..3aa1258 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -826,9 +826,10 @@ class IncidentNeutron(EqualityMixin):
 
             # Create instance from ACE tables within library
             lib = Library(ace_file)
-            data = cls.from_ace(lib.tables[0])
+            # (make_ace marks every metastable nuclide, also Am242m, by A + 400)
+            data = cls.from_ace(lib.tables[0], 'nndc')
             for table in lib.tables[1:]:
-                data.add_temperature_from_ace(table)
+                data.add_temperature_from_ace(table, 'nndc')
 
             # Add fission energy release data
             ev = Evaluation(filename)
-- 
2.43.0


From 068aec2ac7b6175b62fcee5c0512705bf8576219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:07 +0000
Subject: [PATCH 72/81] fix: add_elastic_0K_from_endf failed, or gave an empty
 table, for evaluations without resolved resonances

---
 ASAPy/data/neutron.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 3aa1258..31afc20 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -306,14 +306,17 @@ class IncidentNeutron(EqualityMixin):
             raise ValueError('0 K data already exists for this nuclide.')
 
         data = type(self).from_endf(filename)
-        if data.resonances is not None:
+
+        # Ranges with resolved resonances; there are none if file 2 is missing
+        # or has only a scattering radius or unresolved resonances
+        resolved = [] if data.resonances is None else [
+            rr for rr in data.resonances if isinstance(rr, res._RESOLVED)]
+        if resolved:
             x = []
             y = []
-            for rr in data.resonances:
+            for rr in resolved:
                 if isinstance(rr, res.RMatrixLimited):
                     raise TypeError('R-Matrix Limited not supported.')
-                elif isinstance(rr, res.Unresolved):
-                    continue
 
                 # Get energies/widths for resonances
                 e_peak = rr.parameters['energy'].values
-- 
2.43.0


From 59d7faf16c620a5984f8ddd4c500866063f983b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 73/81] fix: a copy of a resonance range, once reconstructed,
 changed the cross sections of the original

---
 ASAPy/data/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index dd83aee..385610a 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -168,6 +168,7 @@ class ResonanceRange(object):
         new_copy = cls.__new__(cls)
         new_copy.__dict__.update(self.__dict__)
         new_copy._prepared = False
+        new_copy._parameter_matrix = {}
         return new_copy
 
     @classmethod
-- 
2.43.0


From 2fed03ce2dd37575692890e7b9f31442771f2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 74/81] fix: cross sections reconstructed at energies given as
 whole numbers were cut to whole numbers

---
 ASAPy/data/resonance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 385610a..a28dc23 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -234,9 +234,9 @@ class ResonanceRange(object):
             self._prepare_resonances()
 
         if isinstance(energies, Iterable):
-            elastic = np.zeros_like(energies)
-            capture = np.zeros_like(energies)
-            fission = np.zeros_like(energies)
+            elastic = np.zeros_like(energies, dtype=float)
+            capture = np.zeros_like(energies, dtype=float)
+            fission = np.zeros_like(energies, dtype=float)
 
             for i, E in enumerate(energies):
                 xse, xsg, xsf = self._reconstruct(self, E)
-- 
2.43.0


From 95b879698002d620873e891d6b6e9ca7cf3312ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 75/81] fix: competitive widths of an l-value whose first
 resonance has none used an undefined penetrability

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index a28dc23..058677c 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -421,7 +421,7 @@ class MultiLevelBreitWigner(ResonanceRange):
         for i, E, l, J, gt, gn, gg, gf, gx in df.itertuples():
             if l not in l_values:
                 l_values.append(l)
-                competitive.append(gx > 0)
+                competitive.append(any(df.competitiveWidth[df.L == l] > 0))
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
-- 
2.43.0


From 7a4e5bc368a38aff73e93704e0d8cf6159622ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 76/81] fix: penetrability of the competing channel: the
 Q-value could not be read and the wave number was missing or of the wrong
 energy

---
 ASAPy/data/reconstruct.pyx | 14 ++++++++------
 ASAPy/data/resonance.py    |  3 ++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index f63a155..f4500ff 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -143,7 +143,7 @@ def reconstruct_mlbw(mlbw, double E):
     cdef double elastic, capture, fission
     cdef double A, k, rho, rhohat, I
     cdef double P, S, phi, cos2phi, sin2phi
-    cdef double Ex, Q, rhoc, rhochat, P_c, S_c
+    cdef double Ex, Q, kc, rhoc, rhochat, P_c, S_c
     cdef double jmin, jmax, j, Dl
     cdef double E_r, gt, gn, gg, gf, gx, P_r, S_r, P_rx
     cdef double gnE, gtE, Eprime, x, f
@@ -172,8 +172,9 @@ def reconstruct_mlbw(mlbw, double E):
         # Determine shift and penetration at modified energy
         if mlbw._competitive[i]:
             Ex = E + mlbw.q_value[l]*(A + 1)/A
-            rhoc = mlbw.channel_radius[l](Ex)
-            rhochat = mlbw.scattering_radius[l](Ex)
+            kc = _wave_number(A, Ex)
+            rhoc = kc*mlbw.channel_radius[l](Ex)
+            rhochat = kc*mlbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
@@ -268,7 +269,7 @@ def reconstruct_slbw(slbw, double E):
     cdef double elastic, capture, fission
     cdef double A, k, rho, rhohat, I
     cdef double P, S, phi, cos2phi, sin2phi, sinphi2
-    cdef double Ex, rhoc, rhochat, P_c, S_c
+    cdef double Ex, kc, rhoc, rhochat, P_c, S_c
     cdef double E_r, J, gt, gn, gg, gf, gx, P_r, S_r, P_rx
     cdef double gnE, gtE, Eprime, f
     cdef double x, theta, psi, chi
@@ -299,8 +300,9 @@ def reconstruct_slbw(slbw, double E):
         # Determine shift and penetration at modified energy
         if slbw._competitive[i]:
             Ex = E + slbw.q_value[l]*(A + 1)/A
-            rhoc = slbw.channel_radius[l](Ex)
-            rhochat = slbw.scattering_radius[l](Ex)
+            kc = _wave_number(A, Ex)
+            rhoc = kc*slbw.channel_radius[l](Ex)
+            rhochat = kc*slbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 058677c..82555ba 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -431,7 +431,8 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
-                Ex = E + self.q[l]*(A + 1)/A
+                Ex = E + self.q_value[l]*(A + 1)/A
+                k = wave_number(A, Ex)
                 rho = k*self.channel_radius[l](Ex)
                 rhohat = k*self.scattering_radius[l](Ex)
                 px[i], sx[i] = penetration_shift(l, rho)
-- 
2.43.0


From 696d71e394f85c42339d21eca1e45c3b33465210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 77/81] fix: Reich-Moore resonances whose J is possible with
 the lower channel spin only were left out

---
 ASAPy/data/reconstruct.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index f4500ff..7abb392 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -446,7 +446,8 @@ def reconstruct_rm(rm, double E):
                         # this resonance comes from the I - 1/2 channel and vice
                         # versa.
                         j = params[i_res, 2]
-                        if l > 0:
+                        if (l > 0 and abs(l - smin) <= J <= l + smin and
+                                abs(l - smax) <= J <= l + smax):
                             if (j < 0 and s != smin) or (j > 0 and s != smax):
                                 continue
 
-- 
2.43.0


From 612b3a0050ef5e53c06ee943718e2b561adf38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 78/81] fix: both ranges were added at an energy where two
 resolved ranges meet

---
 ASAPy/data/function.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 9926286..3c9cb6f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -637,13 +637,18 @@ class ResonancesWithBackground(EqualityMixin):
         # Get background cross section
         xs = self.background(x)
 
+        # An energy at which two ranges meet belongs to the first of them
+        if isinstance(x, Iterable):
+            done = np.zeros(np.shape(x), dtype=bool)
+
         for r in self.resonances:
             if not isinstance(r, _RESOLVED):
                 continue
 
             if isinstance(x, Iterable):
                 # Determine which energies are within resolved resonance range
-                within = (r.energy_min <= x) & (x <= r.energy_max)
+                within = (r.energy_min <= x) & (x <= r.energy_max) & ~done
+                done |= within
 
                 # Get resonance cross sections and add to background
                 resonant_xs = r.reconstruct(x[within])
@@ -652,6 +657,7 @@ class ResonancesWithBackground(EqualityMixin):
                 if r.energy_min <= x <= r.energy_max:
                     resonant_xs = r.reconstruct(x)
                     xs += resonant_xs[self.mt]
+                    break
 
         return xs
 
-- 
2.43.0


From f507d9068c290454988d0d5f3e82d44e1a0deebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 79/81] fix: narrow resonances could be missed in the elastic
 cross section at 0 K: resonances are in order for each l-value only

---
 ASAPy/data/neutron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 31afc20..a6e6ebb 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -335,6 +335,11 @@ class IncidentNeutron(EqualityMixin):
                 e_peak = e_peak[in_range]
                 gamma = gamma[in_range]
 
+                # Resonances are in order for each l-value only
+                order = np.argsort(e_peak)
+                e_peak = e_peak[order]
+                gamma = gamma[order]
+
                 # Get midpoints between resonances (use min/max energy of
                 # resolved region as absolute lower/upper bound)
                 e_mid = np.concatenate(
-- 
2.43.0


From 34eab462d0f48cce6300fa8d5d122d46e8c445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 80/81] fix: the elastic cross section at 0 K failed in a range
 with bound levels only

---
 ASAPy/data/neutron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index a6e6ebb..747492a 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -358,7 +358,8 @@ class IncidentNeutron(EqualityMixin):
                     energies.append(e_right[e_right < e_upper])
 
                 # Concatenate all points
-                energies = np.concatenate(energies)
+                if energies:
+                    energies = np.concatenate(energies)
 
                 # Create 1000 equal log-spaced energies over RRR, combine with
                 # resonance peaks and half-height energies
-- 
2.43.0


From 786625af3bfbb00dda02d3a5f5b8c1073746f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 81/81] fix: the elastic cross section at 0 K could drop to the
 background at the ends of its range

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 747492a..3b172ce 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -364,6 +364,7 @@ class IncidentNeutron(EqualityMixin):
                 # Create 1000 equal log-spaced energies over RRR, combine with
                 # resonance peaks and half-height energies
                 e_log = np.logspace(log10(e_min), log10(e_max), 1000)
+                e_log[[0, -1]] = e_min, e_max
                 energies = np.union1d(e_log, energies)
 
                 # Linearize and thin cross section
-- 
2.43.0

