From ce59f3ae386cde107a8737941a5f6abc3cb2ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 1/3] fix: age_at_z stays positive at high redshift

---
 dsps/cosmology/flat_wcdm.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsps/cosmology/flat_wcdm.py b/dsps/cosmology/flat_wcdm.py
index 3afde86..86ebb98 100644
--- a/dsps/cosmology/flat_wcdm.py
+++ b/dsps/cosmology/flat_wcdm.py
@@ -247,9 +247,14 @@ def age_at_z0(Om0, w0, wa, h):
 
 @jjit
 def _age_at_z_kern(redshift, Om0, w0, wa, h):
-    t0 = age_at_z0(Om0, w0, wa, h)
-    tlook = lookback_to_z(redshift, Om0, w0, wa, h)
-    return t0 - tlook
+    # Integrate over three decades in 1+z earlier than the input redshift.
+    # Unlike age_at_z0 - lookback_to_z, the result remains positive at high redshift,
+    # and at z=0 it coincides with age_at_z0
+    z_table = (1.0 + redshift) * jnp.logspace(0, 3, 512) - 1.0
+    integrand = 1 / _Ez(z_table, Om0, w0, wa) / (1 + z_table)
+    res = trapz(z_table, integrand)
+    th = _hubble_time(0.0, Om0, w0, wa, h)
+    return th * res
 
 
 _age_at_z_vmap = jjit(vmap(_age_at_z_kern, in_axes=(0, *[None] * 4)))
-- 
2.43.0


From 0b2e377f7f5dc2a7be09d81c0db667ee2e7cda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 2/3] fix: load_transmission_curve rejects transmission above
 unity

---
 dsps/data_loaders/load_filter_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsps/data_loaders/load_filter_data.py b/dsps/data_loaders/load_filter_data.py
index 9ce126f..54a3d14 100644
--- a/dsps/data_loaders/load_filter_data.py
+++ b/dsps/data_loaders/load_filter_data.py
@@ -80,7 +80,7 @@ def load_transmission_curve(fn=None, bn_pat=None, drn=None):
 
         if transmission.min() < -TOL:
             raise ValueError(f"Negatively-valued transmission curve for {fn}")
-        elif transmission.min() > 1 + TOL:
+        elif transmission.max() > 1 + TOL:
             raise ValueError(f"transmission curve exceeds unity for {fn}")
         else:
             transmission = np.clip(transmission, 0.0, 1.0)
-- 
2.43.0


From 2471ce157aacf830742669da0549d241d4cef573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:17 +0000
Subject: [PATCH 3/3] fix: export SSP data without emission lines

---
 scripts/write_fsps_data_to_disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/write_fsps_data_to_disk.py b/scripts/write_fsps_data_to_disk.py
index cb97ea1..fea1187 100644
--- a/scripts/write_fsps_data_to_disk.py
+++ b/scripts/write_fsps_data_to_disk.py
@@ -32,7 +32,7 @@ if __name__ == "__main__":
     with h5py.File(args.outname, "w") as hdf:
         for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
             hdf[key] = arr
-        if "ssp_emline_wave" in ssp_data._fields:
+        if ssp_data.ssp_emline_wave is not None:
             ssp_emline_name = list(ssp_data.ssp_emline_wave._fields)
             ssp_emline_wave = np.array(
                 [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
-- 
2.43.0

