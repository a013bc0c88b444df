From 683bb0a52e888cde0768ab1f95dc72c5bab71bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 01/46] fix: store the draw probability under the key the
 reader uses

---
 popsynth/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 2d3c03f..fcc3860 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -615,7 +615,7 @@ class Population(object):
 
         if self._probability is not None:
             f.create_dataset(
-                "probabilty", data=self._probability, compression="gzip"
+                "probability", data=self._probability, compression="gzip"
             )
 
         f.create_dataset(
-- 
2.43.0


From dab52ab9c687e7f32a50df8b6a26bfeb1126ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 02/46] fix: a population graph stays directed when read from
 file

---
 popsynth/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index fcc3860..5453c2a 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -792,7 +792,8 @@ class Population(object):
         graph = nx.from_dict_of_dicts(
             clean_graph_dict(
                 recursively_load_dict_contents_from_group(f, "graph")
-            )
+            ),
+            create_using=nx.DiGraph,
         )
 
         pop_synth = recursively_load_dict_contents_from_group(f, "popsynth")
-- 
2.43.0


From edb02925a07915825371be237235c4dcd68964be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 03/46] fix: name and forms come back from file as the text
 that was written

---
 popsynth/population.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 5453c2a..7f51bb7 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -599,15 +599,24 @@ class Population(object):
                     k, data=np.array([v]), compression="gzip"
                 )
 
-            f.attrs["lf_form"] = np.string_(self._lf_form)
+            if self._lf_form is not None:
+
+                f.attrs["lf_form"] = np.string_(self._lf_form)
+
 
             f.attrs["has_lf"] = True
 
         else:
             f.attrs["has_lf"] = False
 
-        f.attrs["name"] = np.string_(self._name)
-        f.attrs["spatial_form"] = np.string_(self._spatial_form)
+        if self._name is not None:
+
+            f.attrs["name"] = np.string_(self._name)
+
+        if self._spatial_form is not None:
+
+            f.attrs["spatial_form"] = np.string_(self._spatial_form)
+
         f.attrs["flux_sigma"] = self._flux_sigma
         f.attrs["n_model"] = self._n_model
         f.attrs["r_max"] = self._r_max
@@ -723,7 +732,7 @@ class Population(object):
                 for key in f["lf_params"].keys():
 
                     lf_params[key] = f["lf_params"][key][()][0]
-                lf_form = str(f.attrs["lf_form"])
+                lf_form = _read_text(f, "lf_form")
 
             else:
 
@@ -739,9 +748,8 @@ class Population(object):
         n_model = f.attrs["n_model"]
         r_max = f.attrs["r_max"]
         seed = int(f.attrs["seed"])
-        name = f.attrs["name"]
-
-        spatial_form = str(f.attrs["spatial_form"])
+        name = _read_text(f, "name")
+        spatial_form = _read_text(f, "spatial_form")
 
         luminosities = f["luminosities"][()]
         distances = f["distances"][()]
@@ -1340,6 +1348,23 @@ class Population(object):
         # sns.despine(offset=5, trim=True);
 
 
+def _read_text(f, key: str) -> Optional[str]:
+    """
+    Read a text attribute, which is stored as bytes
+
+    :param f: h5py file or group handle
+    :param key: name of the attribute
+    """
+
+    value = f.attrs.get(key, None)
+
+    if isinstance(value, bytes):
+
+        value = value.decode()
+
+    return value
+
+
 def _create_sphere_variables(R, distance, theta, phi):
     x, y, z = xyz(distance, theta, phi)
 
-- 
2.43.0


From bc451fc75201ffe61f8907f430df37d5e4166d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 04/46] fix: a sub population keeps the known distances of its
 parent

---
 popsynth/population.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 7f51bb7..b23756e 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -876,25 +876,24 @@ class Population(object):
 
             new_aux = None
 
-        itr = 0
-        known_distances = []
-        known_distance_idx = []
-        unknown_distance_idx = []
-
-        for i, s in enumerate(selection):
-
-            if s:
+        if observed:
 
-                if i in self._known_distances:
+            # these are positions among the detected objects, which are
+            # exactly the objects of the sub population
 
-                    known_distances.append(self._distances[i])
-                    known_distance_idx.append(itr)
+            known_distances = np.array(self._known_distances)
+            known_distance_idx = np.array(self._known_distance_idx, dtype=int)
+            unknown_distance_idx = np.array(
+                self._unknown_distance_idx, dtype=int
+            )
 
-                else:
+        else:
 
-                    unknown_distance_idx.append(itr)
+            # there are no distances measured for non-detected objects
 
-                itr += 1
+            known_distances = np.array([])
+            known_distance_idx = np.array([], dtype=int)
+            unknown_distance_idx = np.arange(sum(selection))
 
         if self._probability is not None:
 
@@ -907,9 +906,9 @@ class Population(object):
         return Population(
             luminosities=_selector(self._luminosities),
             distances=_selector(self._distances),
-            known_distances=np.array(known_distances),
-            known_distance_idx=np.array(known_distance_idx),
-            unknown_distance_idx=np.array(unknown_distance_idx),
+            known_distances=known_distances,
+            known_distance_idx=known_distance_idx,
+            unknown_distance_idx=unknown_distance_idx,
             fluxes=_selector(self._fluxes).latent,
             flux_obs=_selector(self._fluxes),
             selection=np.ones(sum(selection), dtype=bool),
-- 
2.43.0


From 944586765e8c593ebd6acea9bdac3493873bcde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 05/46] fix: a sub population keeps the synth description so
 that it can be written

---
 popsynth/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population.py b/popsynth/population.py
index b23756e..9804778 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -927,6 +927,7 @@ class Population(object):
             graph=self._graph,
             theta=_selector(self._theta),
             phi=_selector(self._phi),
+            pop_synth=self._pop_synth,
             probability=probability,
         )
 
-- 
2.43.0


From 37f7712c7d30189784c5d1e303b5065fbf099664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 06/46] fix: selected and non_selected carry a boolean
 selection

---
 popsynth/simulated_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index d716fdf..81e0e12 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -83,7 +83,7 @@ class SimulatedVariable(np.ndarray):
         selected = self.view(np.ndarray)[self._selection]
         selected_latent = self._latent_values[self._selection]
 
-        new_selection = np.ones_like(selected)
+        new_selection = np.ones_like(selected, dtype=bool)
 
         return SimulatedVariable(selected, selected_latent, new_selection)
 
@@ -96,7 +96,7 @@ class SimulatedVariable(np.ndarray):
         non_selected = self.view(np.ndarray)[~self._selection]
         non_selected_latent = self._latent_values[~self._selection]
 
-        new_selection = np.zeros_like(non_selected)
+        new_selection = np.zeros_like(non_selected, dtype=bool)
 
         return SimulatedVariable(
             non_selected, non_selected_latent, new_selection
-- 
2.43.0


From 26401f2f35bfe41bd9a57a5c676d66449ce9c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 07/46] fix: in-place operations act once on observed and once
 on latent values

---
 popsynth/simulated_variable.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/popsynth/simulated_variable.py b/popsynth/simulated_variable.py
index 81e0e12..20a214d 100644
--- a/popsynth/simulated_variable.py
+++ b/popsynth/simulated_variable.py
@@ -164,12 +164,17 @@ class SimulatedVariable(np.ndarray):
         if out_no:
             info['outputs'] = out_no
 
-        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+        # the latent values are computed first and never into the output of
+        # the observed values, as both may share their memory
+
+        latent_kwargs = {k: v for k, v in kwargs.items() if k != 'out'}
 
         latent_results = super().__array_ufunc__(
-            ufunc, method, *latent_args, **kwargs
+            ufunc, method, *latent_args, **latent_kwargs
         )
 
+        results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
+
         if results is NotImplemented:
             return NotImplemented
 
@@ -211,6 +216,10 @@ class SimulatedVariable(np.ndarray):
 
                 out = output
 
+                if isinstance(output, SimulatedVariable):
+
+                    output._latent_values = latent_result
+
             final_results.append(out)
 
         results = tuple(final_results)
-- 
2.43.0


From b43eefbccdce17ebab3b497a9764c1f888ea8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 08/46] fix: normalized distances are accepted against the
 normalized rate

---
 popsynth/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index e0afb97..648ed9f 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -369,7 +369,7 @@ class SpatialDistribution(Distribution):
         else:
 
             r_out = rejection_sample(
-                size, ymax, self.r_max, dNdr
+                size, ymax, self.r_max, dNdr_norm
             )  # type: ArrayLike
 
         self._distances = np.array(r_out)  # type: ArrayLike
-- 
2.43.0


From 576fb066aef415c398606c5778443f859f05efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 09/46] fix: the normalization parameter is restored when the
 integration fails

---
 popsynth/distribution.py     | 26 +++++++++++++++++++-------
 popsynth/population_synth.py | 20 +++++++++++++-------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 648ed9f..6d269d6 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -320,18 +320,24 @@ class SpatialDistribution(Distribution):
 
             # set the prefactor to unity
 
+            old_value = None
+
             if self._normalization_parameter is not None:
 
                 old_value = self.normalization_parameter
                 self.normalization_parameter = 1
 
-            integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
+            try:
 
-            dNdr_norm = lambda r: dNdr(r) / integral
+                integral = integrate.quad(dNdr, 0.0, self.r_max)[0]
 
-            if self._normalization_parameter is not None:
+            finally:
 
-                self.normalization_parameter = old_value
+                if old_value is not None:
+
+                    self.normalization_parameter = old_value
+
+            dNdr_norm = lambda r: dNdr(r) / integral
 
         else:
 
@@ -377,16 +383,22 @@ class SpatialDistribution(Distribution):
         # now compute the differential probability
         # of the distance draws
 
+        old_value = None
+
         if self._normalization_parameter is not None:
 
             old_value = self.normalization_parameter
             self.normalization_parameter = 1
 
-        self._probability = dNdr_norm(self._distances)
+        try:
 
-        if self._normalization_parameter is not None:
+            self._probability = dNdr_norm(self._distances)
 
-            self.normalization_parameter = old_value
+        finally:
+
+            if old_value is not None:
+
+                self.normalization_parameter = old_value
 
 
 class LuminosityDistribution(Distribution):
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 85465c1..e526d93 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -997,15 +997,21 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     log.info('setting normalization to unity for integration')
                     self._spatial_distribution.normalization_parameter = 1
 
-                integral = integrate.quad(
-                    dNdr, 0.0, self._spatial_distribution.r_max
-                )[0]
+                try:
 
-                if old_value is not None:
+                    integral = integrate.quad(
+                        dNdr, 0.0, self._spatial_distribution.r_max
+                    )[0]
 
-                    self._spatial_distribution.normalization_parameter = (
-                        old_value
-                    )
+                finally:
+
+                    if old_value is not None:
+
+                        self._spatial_distribution.normalization_parameter = (
+                            old_value
+                        )
+
+                if old_value is not None:
 
                     log.info(
                         f"normalization parameter set back to {self._spatial_distribution.normalization_parameter}"
-- 
2.43.0


From 5b8ebab33b1b667636b30c608bf1edfcf32efb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 10/46] fix: from_dict leaves its input unchanged

---
 popsynth/population_synth.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index e526d93..e9ee60f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -551,6 +551,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 # first we extract the required info
 
+                # do not alter the input
+                v = dict(v)
+
                 sampler_name = v.pop("type")
                 is_observed = v.pop("observed")
 
-- 
2.43.0


From 1a7aa7b2fe68b236731c3084e090b70145f89c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 11/46] fix: inherited parameters of sampler selections are
 restored from dict

---
 popsynth/population_synth.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index e9ee60f..fbddd01 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -691,9 +691,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     for k, v in params.items():
 
-                        if k in selector.__class__.__dict__:
+                        for x in selector.__class__.mro():
 
-                            setattr(selector, k, float(v))
+                            if k in x.__dict__:
+
+                                setattr(selector, k, float(v))
+
+                                break
 
                     selector._use_obs_value = True
 
-- 
2.43.0


From 2704a86c7e39d92338ade54bd1b3a5c99379c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 12/46] fix: a derived luminosity sampler is saved under its
 registered type

---
 popsynth/population_synth.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index fbddd01..00d6723 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -302,7 +302,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             tmp = {}
 
-            tmp["type"] = self._derived_luminosity_sampler.name
+            tmp["type"] = (
+                self._derived_luminosity_sampler._auxiliary_sampler_name
+            )
             tmp["observed"] = self._derived_luminosity_sampler._is_observed
 
             for k2, v2 in self._derived_luminosity_sampler.truth.items():
-- 
2.43.0


From 811a907d159f43865671b9b3cd6976100165fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 13/46] fix: a saved synth keeps the order of its samplers

---
 popsynth/population_synth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 00d6723..dae0769 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -196,6 +196,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 stream=f,
                 data=self.to_dict(),
                 default_flow_style=False,
+                sort_keys=False,
                 Dumper=yaml.SafeDumper,
             )
 
-- 
2.43.0


From ce5a2e898aee50fc11542cc8606374b5cb2c016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 14/46] fix: is_rate is optional in a synth description

---
 popsynth/population_synth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index dae0769..791c2a9 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -410,7 +410,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         if isinstance(spatial_distribution, CosmologicalDistribution):
 
-            spatial_distribution._is_rate = tmp["is_rate"]
+            spatial_distribution._is_rate = tmp.get("is_rate", True)
 
         seed: int = input["seed"]
 
-- 
2.43.0


From ed3cfec333e10655d7b1ed227206229825461af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 15/46] fix: the broken power law sampler has the sigma it
 documents and reads

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 6100f2b..e4eca71 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -109,6 +109,7 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
     xbreak = AuxiliaryParameter(vmin=0)
     beta = AuxiliaryParameter()
     xmax = AuxiliaryParameter(vmin=0)
+    sigma = AuxiliaryParameter(default=1, vmin=0)
 
     def __init__(self, name: str, observed: bool = True):
         """
-- 
2.43.0


From d237414420063d984147729af498769f0614f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 16/46] fix: nested secondaries that use distance can be added
 to the graph

---
 popsynth/auxiliary_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 5de5d2e..c12735e 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -483,7 +483,7 @@ class AuxiliarySampler(
 
                     if v.uses_distance:
 
-                        self._graph.add_edge(spatial_distribution.name, k)
+                        graph.add_edge(spatial_distribution.name, k)
 
                 recursive_secondaries += v.get_secondary_properties(
                     graph, k, spatial_distribution
-- 
2.43.0


From bb4c6c5a0e47039503a50efb3915fc2e517acffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 17/46] fix: a synth without luminosity distribution can be
 printed

---
 popsynth/population_synth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 791c2a9..18bbba1 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1466,6 +1466,8 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
     def __repr__(self) -> str:
 
+        out = ""
+
         if self._has_derived_luminosity:
 
             out = "Luminosity Function\n"
-- 
2.43.0


From 408f6c1e20b7b7fc67b58d3c39c202cf225bd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 18/46] fix: the spiral galaxy reports its polar angle as theta

---
 popsynth/distributions/spiral_galaxy_distribution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/popsynth/distributions/spiral_galaxy_distribution.py b/popsynth/distributions/spiral_galaxy_distribution.py
index bf0697c..4dc7189 100644
--- a/popsynth/distributions/spiral_galaxy_distribution.py
+++ b/popsynth/distributions/spiral_galaxy_distribution.py
@@ -98,8 +98,8 @@ class SpiralGalaxyDistribution(SphericalDistribution):
             0, scale=0.07 * np.abs(self._distances), size=size
         )
 
-        phi = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
+        theta = np.arccos(zpos / np.sqrt(self._distances ** 2 + zpos ** 2))
 
-        self._theta = spiraltheta
-
-        self._phi = phi
+        # theta is the polar angle, phi runs along the galactic plane
+        self._theta = theta
+        self._phi = spiraltheta
-- 
2.43.0


From 4436b8cb76e5ce9c34e1e762b2b383858bc518b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 19/46] fix: the declination sampler samples declinations

---
 popsynth/aux_samplers/sky_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index dad7a11..101f6cc 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -78,6 +78,6 @@ class DecSampler(NonObservedAuxSampler):
 
     def true_sampler(self, size):
 
-        self._true_values = np.arccos(
+        self._true_values = np.arcsin(
             1 - 2 * np.random.uniform(0.0, 1.0, size=size)
         )
-- 
2.43.0


From 53c2510f57d641799cf3f8bc1a8c36f5b1becef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 20/46] fix: the lower bound of the truncated log10 normal is a
 log10

---
 popsynth/aux_samplers/trunc_lognormal_aux_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
index 7c54007..affd06d 100644
--- a/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
+++ b/popsynth/aux_samplers/trunc_lognormal_aux_sampler.py
@@ -119,7 +119,7 @@ class TruncatedLog10NormalAuxSampler(AuxiliarySampler):
         if self.lower == 0:
             a = stats.norm.ppf(1e-5,loc=self.mu,scale=self.tau)
         else:
-            a = np.log(self.lower)
+            a = np.log10(self.lower)
 
         b = np.log10(self.upper)
 
-- 
2.43.0


From fa3c78d09b0849e97fd5bb771a478a345872e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 21/46] fix: the power law sampler follows the seed when
 compiled

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index e4eca71..8e00817 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -84,8 +84,12 @@ class PowerLawAuxSampler(AuxiliarySampler):
 
     def true_sampler(self, size: int):
 
+        # the uniforms are drawn outside of the compiled function, whose random
+        # numbers are not controlled by the seed of the synth
+        u = np.random.uniform(0, 1, size=size)
+
         self._true_values = _sample_power_law(
-            self.xmin, self.xmax, self.alpha, size
+            self.xmin, self.xmax, self.alpha, u
         )
 
     def observation_sampler(self, size: int):
@@ -158,25 +162,25 @@ class BrokenPowerLawAuxSampler(AuxiliarySampler):
 
 
 @nb.njit(fastmath=True)
-def _sample_power_law(xmin, xmax, alpha, size):
+def _sample_power_law(xmin, xmax, alpha, u):
+
+    size = len(u)
 
     out = np.empty(size)
 
     for i in range(size):
 
-        u = np.random.uniform(0, 1)
-
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u
+                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u[i]
                 + np.power(xmin, alpha + 1),
                 1.0 / (alpha + 1.0),
             )
 
         else:
 
-            x = xmin * np.exp(u / (1.0 / np.log(xmax / xmin)))
+            x = xmin * np.exp(u[i] / (1.0 / np.log(xmax / xmin)))
 
         out[i] = x
 
-- 
2.43.0


From f50cdcd09ade80a72d620e0bd0642b783691d441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 22/46] fix: a second normalization parameter is rejected

---
 popsynth/utils/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c89f159..c1e101d 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -171,6 +171,8 @@ class ParameterMeta(type):
 
                         raise AssertionError("Can only have 1 normalization")
 
+                    norm_counter += 1
+
         return cls
 
     def __subclasscheck__(cls, subclass):
-- 
2.43.0


From 10b997fd70f075df23a91450b44e8081431096b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 23/46] fix: a population keeps its own copy of parameters,
 model spaces and graph

---
 popsynth/population_synth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 18bbba1..75d65c5 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1386,7 +1386,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
         lf_form = None
         if self._luminosity_distribution is not None:
 
-            lf_params = self._luminosity_distribution.params
+            lf_params = dict(self._luminosity_distribution.params)
             lf_form = self._luminosity_distribution.form
 
         # if distance_probability is None:
@@ -1405,15 +1405,15 @@ class PopulationSynth(object, metaclass=ABCMeta):
             r_max=self._spatial_distribution.r_max,
             n_model=self._n_model,
             lf_params=lf_params,
-            spatial_params=self._spatial_distribution.params,
-            model_spaces=self._model_spaces,
+            spatial_params=dict(self._spatial_distribution.params),
+            model_spaces=dict(self._model_spaces),
             seed=self._seed,
             name=self._name,
             spatial_form=self._spatial_distribution.form,
             lf_form=lf_form,
             auxiliary_quantities=auxiliary_quantities,
             truth=truth,
-            graph=self.graph,
+            graph=self.graph.copy(),
             theta=self._spatial_distribution.theta,
             phi=self._spatial_distribution.phi,
             pop_synth=self.to_dict(),
-- 
2.43.0


From 5bcd0ab565326632f208a3f8423383feaf5ddae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 24/46] fix: the truth covers nested secondaries and default
 spatial parameters

---
 popsynth/auxiliary_sampler.py | 17 +++++++++++++++++
 popsynth/population_synth.py  | 16 +++++++++-------
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index c12735e..300f035 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -503,6 +503,23 @@ class AuxiliarySampler(
 
         return recursive_secondaries
 
+    def get_secondary_truths(self) -> Dict[str, Dict[str, float]]:
+        """
+        The truth of this sampler and of all the secondaries below it
+
+        :returns: truths by sampler name
+        """
+
+        truths = {}
+
+        for k, v in self._secondary_samplers.items():
+
+            truths.update(v.get_secondary_truths())
+
+        truths[self._name] = self.truth
+
+        return truths
+
     def get_secondary_objects(
         self,
         recursive_secondaries: Optional[Dict[str, Any]] = None,
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 75d65c5..4879bf2 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -971,11 +971,6 @@ class PopulationSynth(object, metaclass=ABCMeta):
         # this stores all the "true" population values from all the samplers
         truth = dict()  # type: dict
 
-        # store the spatial distributVion truths
-        truth[
-            self._spatial_distribution.name
-        ] = self._spatial_distribution.truth
-
         # set the random seed
 
         np.random.seed(self._seed)
@@ -1053,6 +1048,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         self._spatial_distribution.draw_distance(size=n, normalize=normalize)
 
+        # store the spatial distribution truths, now that all parameters
+        # have their values
+
+        truth[
+            self._spatial_distribution.name
+        ] = self._spatial_distribution.truth
+
         # set the draw probability
 
         probability *= self._spatial_distribution.probability
@@ -1172,7 +1174,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 # this will _could_ be clobbered later
                 # but that is ok
 
-                truth[v2.name] = v2.truth
+                truth.update(v2.get_secondary_truths())
 
         else:
 
@@ -1246,7 +1248,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                 # store the secondary truths
 
-                truth[v2.name] = v2.truth
+                truth.update(v2.get_secondary_truths())
 
         # pbar.update()
 
-- 
2.43.0


From c4fb8b31084a0edd8c311b7961dcfd0362ae90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 25/46] fix: the distance selection is given the distances of
 the detected objects

---
 popsynth/population_synth.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 4879bf2..890b6d9 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1363,6 +1363,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
             log.warning("NO HIDDEN OBJECTS")
 
+        # the distance selection acts on the detected objects
+        self._distance_selector.set_distance(
+            distances[global_selection.selection]
+        )
+
         self._distance_selector.select(size=global_selection.n_selected)
 
         known_distances = distances[global_selection.selection][
-- 
2.43.0


From a94910423a09262cf577a6b532f78ddf44c3e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 26/46] fix: a sampler selection on distance does not need a
 distance dependent sampler

---
 popsynth/auxiliary_sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 300f035..299dfb7 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -333,10 +333,14 @@ class AuxiliarySampler(
 
                 log.info(f"{self.name} is sampling its secondary quantities")
 
-            if self._uses_distance:
+            try:
 
                 self._selector.set_distance(self._distance)
 
+            except (AttributeError):
+
+                log.debug("tried to set distance, but could not")
+
             try:
 
                 self._selector.set_luminosity(self._luminosity)
-- 
2.43.0


From b81237e41338e7134c3cfd0ae826c17b11541b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 27/46] fix: luminosities reach secondaries at every depth

---
 popsynth/auxiliary_sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 299dfb7..07e1cf3 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -367,6 +367,10 @@ class AuxiliarySampler(
 
                 v.set_spatial_values(self._spatial_values)
 
+                if hasattr(self, "_luminosity"):
+
+                    v.set_luminosity(self._luminosity)
+
                 v.draw(size=size)
 
             # Now, it is assumed that if this sampler depends on the previous samplers,
-- 
2.43.0


From 195f0b136745cd82ebb50c6eb9a017c2685a6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 28/46] fix: removed samplers disappear from the graph

---
 popsynth/population_synth.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 890b6d9..bea8904 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1528,6 +1528,12 @@ class PopulationSynth(object, metaclass=ABCMeta):
         Builds the graph for all the samplers.
         """
 
+        # start afresh so that removed samplers do not linger
+
+        self._graph = nx.DiGraph()
+
+        self._graph.add_node(self._spatial_distribution.name)
+
         # first check out the luminosity sampler
 
         self._graph.add_node("obs_flux", observed=True)
-- 
2.43.0


From 9a9c1d9d2d28c027832c2d82d54f1c32fc2644e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 29/46] fix: the graph shows all distance and observation edges

---
 popsynth/population_synth.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index bea8904..18be236 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1558,9 +1558,18 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 v2,
             ) in self._derived_luminosity_sampler.secondary_samplers.items():
 
-                self._graph.add_node(k2)
+                self._graph.add_node(k2, observed=False)
                 self._graph.add_edge(k2, self._derived_luminosity_sampler.name)
 
+                if v2.uses_distance:
+
+                    self._graph.add_edge(self._spatial_distribution.name, k2)
+
+                if v2.observed:
+
+                    self._graph.add_node(v2.obs_name, observed=True)
+                    self._graph.add_edge(k2, v2.obs_name)
+
                 # pass the graph and the primary
 
                 _ = v2.get_secondary_properties(
@@ -1569,7 +1578,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     spatial_distribution=self._spatial_distribution,
                 )
 
-        else:
+        elif self._luminosity_distribution is not None:
             self._graph.add_edge(self._luminosity_distribution.name, "obs_flux")
         # now do the same fro everything else
 
@@ -1585,9 +1594,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
                 self._graph.add_node(v.obs_name, observed=False)
                 self._graph.add_edge(k, v.obs_name)
 
-                if v.uses_distance:
+            if v.uses_distance:
 
-                    self._graph.add_edge(self._spatial_distribution.name, k)
+                self._graph.add_edge(self._spatial_distribution.name, k)
 
             for k2, v2 in v.secondary_samplers.items():
 
-- 
2.43.0


From 8dc6c270a2f5b8a80034f0c93fc337f1a507e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 30/46] fix: silencing twice does not lose the log levels

---
 popsynth/utils/logging.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/popsynth/utils/logging.py b/popsynth/utils/logging.py
index 1d3a96d..4d45024 100644
--- a/popsynth/utils/logging.py
+++ b/popsynth/utils/logging.py
@@ -119,8 +119,11 @@ class LoggingState(object):
         self.popsynth_usr_log_handler = popsynth_usr_log_handler
         self.popsynth_console_log_handler = popsynth_console_log_handler
 
-        # store their current states
+        # remember if the logs are silenced, as the levels must
+        # not be stored again until they are re-activated
+        self._is_silenced = False
 
+        # store their current states
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -128,6 +131,11 @@ class LoggingState(object):
 
     def _store_state(self):
 
+        if self._is_silenced:
+
+            return
+
+
         self.popsynth_usr_log_handler_state = popsynth_usr_log_handler.level
         self.popsynth_console_log_handler_state = (
             popsynth_console_log_handler.level
@@ -135,6 +143,9 @@ class LoggingState(object):
 
     def restore_last_state(self):
 
+        self._is_silenced = False
+
+
         self.popsynth_usr_log_handler.setLevel(
             self.popsynth_usr_log_handler_state
         )
@@ -147,6 +158,8 @@ class LoggingState(object):
         # store the state
         self._store_state()
 
+        self._is_silenced = True
+
         # silence the logs
         self.popsynth_usr_log_handler.setLevel(logging.CRITICAL)
         self.popsynth_console_log_handler.setLevel(logging.CRITICAL)
-- 
2.43.0


From 5c8fb43bc8c5d25257fd59ccd95c3cf0da24c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:56 +0000
Subject: [PATCH 31/46] fix: sky samplers can be drawn in a survey (their names
 no longer collide with the population's ra/dec properties)

---
 popsynth/aux_samplers/sky_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/aux_samplers/sky_sampler.py b/popsynth/aux_samplers/sky_sampler.py
index 101f6cc..c363451 100644
--- a/popsynth/aux_samplers/sky_sampler.py
+++ b/popsynth/aux_samplers/sky_sampler.py
@@ -57,7 +57,7 @@ class RASampler(NonObservedAuxSampler):
 
         RA is in radians.
         """
-        super(RASampler, self).__init__(name="ra")
+        super(RASampler, self).__init__(name="sky_ra")
 
     def true_sampler(self, size):
 
@@ -74,7 +74,7 @@ class DecSampler(NonObservedAuxSampler):
 
         Dec is in radians.
         """
-        super(DecSampler, self).__init__(name="dec")
+        super(DecSampler, self).__init__(name="sky_dec")
 
     def true_sampler(self, size):
 
-- 
2.43.0


From 544f3c7133e8a2bda0f93e6a4644a5dc7d123694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 32/46] fix: a survey whose detected objects all lack a
 distance can be drawn

---
 popsynth/population_synth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 18be236..28295ba 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1378,13 +1378,13 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
         log.info(f"Detected {len(known_distances)} distances")
 
-        if global_selection.n_selected > 0:
+        if len(known_distances) > 0:
 
             log.info(
                 f"Detected {global_selection.n_selected} objects out to a distance of {max(known_distances):.2f}"
             )
 
-        else:
+        elif global_selection.n_selected == 0:
 
             log.warning("No Objects detected")
 
-- 
2.43.0


From 8171b987f1dd8fcb5de12be613b75a209307e819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 33/46] fix: a population that was read from a file can be
 written again

---
 popsynth/utils/hdf5_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/popsynth/utils/hdf5_utils.py b/popsynth/utils/hdf5_utils.py
index 828f8c2..bf752b5 100644
--- a/popsynth/utils/hdf5_utils.py
+++ b/popsynth/utils/hdf5_utils.py
@@ -46,7 +46,17 @@ def recursively_save_dict_contents_to_group(h5file, path, dic: Dict[Any, Any]):
                 raise ValueError("Cannot save %s type" % type(item))
 
         if isinstance(
-            item, (np.ndarray, np.int64, np.float64, str, bytes, float, int)
+            item,
+            (
+                np.ndarray,
+                np.int64,
+                np.float64,
+                np.bool_,
+                str,
+                bytes,
+                float,
+                int,
+            ),
         ):
 
             h5file[path + "/" + key] = item
-- 
2.43.0


From 9b7b81dc5e72a6d9564b8e81ae8ff02d67236ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 34/46] fix: a saved synth keeps what the selection of each
 sampler is made on

---
 popsynth/auxiliary_sampler.py                 |  1 +
 popsynth/population_synth.py                  | 11 ++++++++-
 .../selection_probability.py                  | 23 ++++++++++++++++++-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 07e1cf3..38a3309 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -569,6 +569,7 @@ class AuxiliarySampler(
         selection[self.selector._selection_name] = self.selector.parameters
 
         tmp["selection"] = selection
+        tmp["selection uses"] = self.selector.uses
 
         recursive_secondaries[self._name] = tmp
 
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 28295ba..7a46ee6 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -292,6 +292,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
             selection[v.selector._selection_name] = v.selector.parameters
 
             tmp["selection"] = selection
+            tmp["selection uses"] = v.selector.uses
 
             aux_samplers[k] = tmp
 
@@ -322,6 +323,9 @@ class PopulationSynth(object, metaclass=ABCMeta):
             ] = self._derived_luminosity_sampler.selector.parameters
 
             tmp["selection"] = selection
+            tmp[
+                "selection uses"
+            ] = self._derived_luminosity_sampler.selector.uses
 
             aux_samplers[self._derived_luminosity_sampler.name] = tmp
 
@@ -572,6 +576,11 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                     selection = None
 
+                # unless told otherwise, a selection is made
+                # on the observed value of its sampler
+
+                selection_uses = v.pop("selection uses", ["obs_value"])
+
                 if "secondary" in v:
 
                     log.debug(f"auxiliary sampler {obj_name} has secondaries")
@@ -702,7 +711,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
 
                                 break
 
-                    selector._use_obs_value = True
+                    selector.set_uses(selection_uses)
 
                     tmp.set_selection_probability(selector)
 
diff --git a/popsynth/selection_probability/selection_probability.py b/popsynth/selection_probability/selection_probability.py
index b9522e0..3879423 100644
--- a/popsynth/selection_probability/selection_probability.py
+++ b/popsynth/selection_probability/selection_probability.py
@@ -1,5 +1,5 @@
 import abc
-from typing import Dict
+from typing import Dict, Iterable, List
 
 import numpy as np
 from class_registry import AutoRegister
@@ -132,6 +132,27 @@ class SelectionProbability(
 
         self._is_sampled = True
 
+    @property
+    def uses(self) -> List[str]:
+        """
+        The quantities this selection is made on
+        """
+
+        return [
+            k
+            for k in ("obs_value", "distance", "luminosity", "flux")
+            if getattr(self, f"_use_{k}")
+        ]
+
+    def set_uses(self, uses: Iterable[str]) -> None:
+        """
+        Set the quantities this selection is made on
+        """
+
+        for k in ("obs_value", "distance", "luminosity", "flux"):
+
+            setattr(self, f"_use_{k}", k in uses)
+
     @property
     def parameters(self) -> Dict[str, float]:
 
-- 
2.43.0


From 0c8f67cf87ab3533eb2f6bc859b8747f04fdcd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 35/46] fix: the density of a spatial draw has one entry per
 object even when it is constant

---
 popsynth/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/distribution.py b/popsynth/distribution.py
index 6d269d6..6011892 100644
--- a/popsynth/distribution.py
+++ b/popsynth/distribution.py
@@ -392,7 +392,9 @@ class SpatialDistribution(Distribution):
 
         try:
 
-            self._probability = dNdr_norm(self._distances)
+            # (a constant density may come back as a scalar)
+
+            self._probability = dNdr_norm(self._distances) * np.ones(size)
 
         finally:
 
-- 
2.43.0


From 0bf4c010e3caa475c66bda121dcbffa384815f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 36/46] fix: importing the package registers the sky samplers,
 so synths that use them can be read back

---
 popsynth/aux_samplers/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/popsynth/aux_samplers/__init__.py b/popsynth/aux_samplers/__init__.py
index 186e2f2..cd42858 100644
--- a/popsynth/aux_samplers/__init__.py
+++ b/popsynth/aux_samplers/__init__.py
@@ -6,6 +6,7 @@ from .plaw_aux_sampler import (
     ParetoAuxSampler,
     PowerLawAuxSampler,
 )
+from .sky_sampler import DecSampler, RASampler, SkySampler
 from .trunc_normal_aux_sampler import TruncatedNormalAuxSampler
 from .trunc_lognormal_aux_sampler import TruncatedLogNormalAuxSampler,TruncatedLog10NormalAuxSampler
 from .viewing_angle_sampler import ViewingAngleSampler
@@ -22,4 +23,7 @@ __all__ = [
     "ParetoAuxSampler",
     "PowerLawAuxSampler",
     "BrokenPowerLawAuxSampler",
+    "SkySampler",
+    "RASampler",
+    "DecSampler",
 ]
-- 
2.43.0


From d5e139e90cccb3ae2c62f1e3890f160adb3650ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 37/46] fix: issubclass works on the abstract base classes

---
 popsynth/utils/meta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/popsynth/utils/meta.py b/popsynth/utils/meta.py
index c1e101d..8e12fc3 100644
--- a/popsynth/utils/meta.py
+++ b/popsynth/utils/meta.py
@@ -152,6 +152,12 @@ class ParameterMeta(type):
                     abstracts.add(name)
         cls.__abstractmethods__ = frozenset(abstracts)
 
+        # bookkeeping of __subclasscheck__
+
+        cls._abc_registry = set()
+        cls._abc_cache = set()
+        cls._abc_negative_cache = set()
+
         # parameters
 
         cls._parameter_storage = {}
-- 
2.43.0


From 2cbe5a491be8365d4c87ce89eff77944f3acdade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 38/46] fix: a selection without a quantity to select on fails
 with a message

---
 .../generic_selectors.py                      | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/popsynth/selection_probability/generic_selectors.py b/popsynth/selection_probability/generic_selectors.py
index 5dd9d86..4496a46 100644
--- a/popsynth/selection_probability/generic_selectors.py
+++ b/popsynth/selection_probability/generic_selectors.py
@@ -113,6 +113,8 @@ class BoxSelection(SelectionProbability):
 
     def draw(self, size: int) -> np.ndarray:
 
+        values = None
+
         if self._use_distance:
             values = self._distance
 
@@ -128,6 +130,11 @@ class BoxSelection(SelectionProbability):
 
             values = self._observed_flux
 
+        if values is None:
+
+            log.error(f"{self._name} has no quantity to select on")
+            raise RuntimeError()
+
         self._selection = (values >= self.vmin) & (values <= self.vmax)
 
 
@@ -176,6 +183,8 @@ class LowerBound(SelectionProbability):
 
     def draw(self, size: int) -> None:
 
+        values = None
+
         if self._use_distance:
             values = self._distance
 
@@ -191,6 +200,11 @@ class LowerBound(SelectionProbability):
 
             values = self._observed_flux
 
+        if values is None:
+
+            log.error(f"{self._name} has no quantity to select on")
+            raise RuntimeError()
+
         self._selection = values >= self.boundary
 
 
@@ -239,6 +253,8 @@ class UpperBound(SelectionProbability):
 
     def draw(self, size: int) -> None:
 
+        values = None
+
         if self._use_distance:
             values = self._distance
 
@@ -254,6 +270,11 @@ class UpperBound(SelectionProbability):
 
             values = self._observed_flux
 
+        if values is None:
+
+            log.error(f"{self._name} has no quantity to select on")
+            raise RuntimeError()
+
         self._selection = values <= self.boundary
 
 
@@ -305,6 +326,8 @@ class SoftSelection(SelectionProbability):
 
     def draw(self, size: int, use_log=True) -> None:
 
+        values = None
+
         if self._use_distance:
             values = self._distance
 
@@ -320,6 +343,11 @@ class SoftSelection(SelectionProbability):
 
             values = self._observed_flux
 
+        if values is None:
+
+            log.error(f"{self._name} has no quantity to select on")
+            raise RuntimeError()
+
         if not use_log:
             probs = sf.expit(
                 self.strength * (values - self.boundary)
-- 
2.43.0


From 83ba32d94577460154534c44f98ef221aeaa24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 39/46] fix: the true fluxes and the start of the arrows in the
 flux plot are the latent fluxes

---
 popsynth/population.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/popsynth/population.py b/popsynth/population.py
index 9804778..31db487 100644
--- a/popsynth/population.py
+++ b/popsynth/population.py
@@ -985,7 +985,7 @@ class Population(object):
 
         ax.scatter(
             self._distances,
-            self._fluxes,
+            self._fluxes.latent,
             alpha=0.5,
             color=flux_color,
             edgecolors="none",
@@ -1001,12 +1001,14 @@ class Population(object):
         try:
 
             ax.set_ylim(
-                bottom=min([self._fluxes.min(), self._fluxes.selected.min()])
+                bottom=min(
+                    [self._fluxes.latent.min(), self._fluxes.selected.min()]
+                )
             )
 
         except ValueError:
 
-            ax.set_ylim(bottom=self._fluxes.min())
+            ax.set_ylim(bottom=self._fluxes.latent.min())
 
         ax.set_xlabel("distance")
         ax.set_ylabel("flux")
@@ -1097,7 +1099,7 @@ class Population(object):
 
         if (with_arrows) and (not self._no_detection):
             for start, stop, z in zip(
-                self._fluxes[self._selection],
+                self._fluxes.latent[self._selection],
                 self._fluxes.selected,
                 self._distances.selected,
             ):
-- 
2.43.0


From 898fa79e76f956b275e2b89556aac53e8ddd2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 40/46] fix: integer indices and limits of a power law sampler
 are not truncated

---
 popsynth/aux_samplers/plaw_aux_sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/popsynth/aux_samplers/plaw_aux_sampler.py b/popsynth/aux_samplers/plaw_aux_sampler.py
index 8e00817..bd6745f 100644
--- a/popsynth/aux_samplers/plaw_aux_sampler.py
+++ b/popsynth/aux_samplers/plaw_aux_sampler.py
@@ -173,8 +173,9 @@ def _sample_power_law(xmin, xmax, alpha, u):
         if alpha != -1.0:
 
             x = np.power(
-                (np.power(xmax, alpha + 1) - np.power(xmin, alpha + 1)) * u[i]
-                + np.power(xmin, alpha + 1),
+                (np.power(xmax, alpha + 1.0) - np.power(xmin, alpha + 1.0))
+                * u[i]
+                + np.power(xmin, alpha + 1.0),
                 1.0 / (alpha + 1.0),
             )
 
-- 
2.43.0


From 3b3e4219cf45df85d18648e85d3ad5c33600ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 41/46] fix: the broken power law takes an index of -1 and
 whole numbers

---
 popsynth/distributions/bpl_distribution.py | 52 ++++++++++++++--------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/popsynth/distributions/bpl_distribution.py b/popsynth/distributions/bpl_distribution.py
index 48ed39b..e7c5388 100644
--- a/popsynth/distributions/bpl_distribution.py
+++ b/popsynth/distributions/bpl_distribution.py
@@ -65,6 +65,34 @@ class BPLDistribution(LuminosityDistribution):
         )
 
 
+def _power_law_integral(x0, x1, a):
+    """
+    Integral of x^a between x0 and x1, logarithmic for an index of -1.
+    """
+
+    if a == -1:
+
+        return np.log(x1 / x0)
+
+    return (np.power(x1, a + 1.0) - np.power(x0, a + 1.0)) / (a + 1)
+
+
+def _sample_power_law(u, x0, x1, a):
+    """
+    Inverse transform sample x^a between x0 and x1.
+    """
+
+    if a == -1:
+
+        return x0 * np.power(x1 / x0, u)
+
+    return np.power(
+        u * (np.power(x1, a + 1.0) - np.power(x0, a + 1.0))
+        + np.power(x0, a + 1.0),
+        1.0 / (1 + a),
+    )
+
+
 def integrate_pl(x0, x1, x2, a1, a2):
     """
     Integrate a broken power law between bounds.
@@ -77,12 +105,8 @@ def integrate_pl(x0, x1, x2, a1, a2):
     """
 
     # compute the integral of each piece analytically
-    int_1 = (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0)) / (a1 + 1)
-    int_2 = (
-        np.power(x1, a1 - a2)
-        * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        / (a2 + 1)
-    )
+    int_1 = _power_law_integral(x0, x1, a1)
+    int_2 = np.power(float(x1), a1 - a2) * _power_law_integral(x1, x2, a2)
 
     # compute the total integral
     total = int_1 + int_2
@@ -107,7 +131,7 @@ def bpl(x, x0, x1, x2, a1, a2):
     """
 
     # creatre a holder for the values
-    x = np.atleast_1d(x)
+    x = np.atleast_1d(x).astype(float)
 
     out = np.zeros_like(x)
 
@@ -125,7 +149,7 @@ def bpl(x, x0, x1, x2, a1, a2):
 
     idx = (x >= x1) & (x < x2)
 
-    out[idx] = np.power(x[idx], a2) * np.power(x1, a1 - a2)
+    out[idx] = np.power(x[idx], a2) * np.power(float(x1), a1 - a2)
 
     return out * norm
 
@@ -155,17 +179,9 @@ def sample_bpl(u, x0, x1, x2, a1, a2):
     idx = stats.bernoulli.rvs(w1, size=len(u)).astype(bool)
 
     # inverse transform sample the lower part for the "successes"
-    out[idx] = np.power(
-        u[idx] * (np.power(x1, a1 + 1.0) - np.power(x0, a1 + 1.0))
-        + np.power(x0, a1 + 1.0),
-        1.0 / (1 + a1),
-    )
+    out[idx] = _sample_power_law(u[idx], x0, x1, a1)
 
     # inverse transform sample the upper part for the "failures"
-    out[~idx] = np.power(
-        u[~idx] * (np.power(x2, a2 + 1.0) - np.power(x1, a2 + 1.0))
-        + np.power(x1, a2 + 1.0),
-        1.0 / (1 + a2),
-    )
+    out[~idx] = _sample_power_law(u[~idx], x1, x2, a2)
 
     return out
-- 
2.43.0


From 64cca4b84fd38c0f859bb11dd93c7d6943a92458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 42/46] fix: the cosmological power law evolution takes
 whole-number redshifts

---
 popsynth/distributions/cosmological_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/cosmological_distribution.py b/popsynth/distributions/cosmological_distribution.py
index 8607f7c..3137499 100644
--- a/popsynth/distributions/cosmological_distribution.py
+++ b/popsynth/distributions/cosmological_distribution.py
@@ -202,7 +202,7 @@ class ZPowerCosmoDistribution(CosmologicalDistribution):
 
 @nb.njit(fastmath=True)
 def _zp_dndv(z, Lambda, delta):
-    return Lambda * np.power(z + 1, delta)
+    return Lambda * np.power(z + 1.0, delta)
 
 
 # class MergerDistribution(CosmologicalDistribution):
-- 
2.43.0


From c5da4ddd7271b2ec090f94d6b6a5062284d6e0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 43/46] fix: the Pareto density takes whole-number and single
 luminosities

---
 popsynth/distributions/pareto_distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/popsynth/distributions/pareto_distribution.py b/popsynth/distributions/pareto_distribution.py
index 762ee4d..9fd2c5c 100644
--- a/popsynth/distributions/pareto_distribution.py
+++ b/popsynth/distributions/pareto_distribution.py
@@ -32,6 +32,9 @@ class ParetoDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
+        # integers would truncate the density
+        L = np.asarray(L, dtype=float)
+
         out = np.zeros_like(L)
 
         idx = L >= self.Lmin
-- 
2.43.0


From b8cee619ae36e18b48ac39f804679690def3b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 44/46] fix: the log10-normal density is normalised in
 luminosity

---
 popsynth/distributions/log10_normal_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/popsynth/distributions/log10_normal_distribution.py b/popsynth/distributions/log10_normal_distribution.py
index 845be51..638ed39 100644
--- a/popsynth/distributions/log10_normal_distribution.py
+++ b/popsynth/distributions/log10_normal_distribution.py
@@ -32,7 +32,7 @@ class Log10NormalDistribution(LuminosityDistribution):
 
     def phi(self, L):
 
-        return (1.0 / (self.tau * L * np.sqrt(2 * np.pi))) * np.exp(
+        return (1.0 / (self.tau * L * np.log(10) * np.sqrt(2 * np.pi))) * np.exp(
             -((np.log10(L) - self.mu) ** 2) / (2 * self.tau**2)
         )
 
-- 
2.43.0


From ff207fd0fb8e8c5c238dab664d6edb8abffbdd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 45/46] fix: a selection shared by several samplers judges each
 of them

The result of a selection was read from the selection object after all
samplers of a tree had been drawn, so when one object was attached to
several samplers only the last judgement counted.
---
 popsynth/auxiliary_sampler.py | 8 +++++++-
 popsynth/population_synth.py  | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index 38a3309..a9e0ad0 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -1,4 +1,5 @@
 import abc
+import copy
 from typing import Any, Dict, List, Optional
 
 import numpy as np
@@ -207,6 +208,7 @@ class AuxiliarySampler(
         self._has_secondary: bool = False
         self._is_sampled: bool = False
         self._selector: SelectionProbability = UnitySelection()
+        self._applied_selector: SelectionProbability = self._selector
         self._uses_distance: bool = uses_distance
         self._uses_luminosity: bool = uses_luminosity
         self._uses_sky_position: bool = uses_sky_position
@@ -406,6 +408,10 @@ class AuxiliarySampler(
 
             self._apply_selection()
 
+            # the selector may be shared with other samplers
+            # so we keep what it decided for this one
+            self._applied_selector = copy.copy(self._selector)
+
             self._probability = self._compute_probability()
 
     def _compute_probability(self) -> Optional[np.ndarray]:
@@ -504,7 +510,7 @@ class AuxiliarySampler(
                 self._name,
                 self._true_values,
                 self._obs_values,
-                self._selector,
+                self._applied_selector,
                 self.probability,
             )
         )
diff --git a/popsynth/population_synth.py b/popsynth/population_synth.py
index 7a46ee6..c8c5f3f 100644
--- a/popsynth/population_synth.py
+++ b/popsynth/population_synth.py
@@ -1141,7 +1141,7 @@ class PopulationSynth(object, metaclass=ABCMeta):
                     self._derived_luminosity_sampler.name,
                     self._derived_luminosity_sampler.true_values,
                     self._derived_luminosity_sampler.obs_values,
-                    self._derived_luminosity_sampler.selector,
+                    self._derived_luminosity_sampler._applied_selector,
                     self._derived_luminosity_sampler.probability,
                 )
             )
-- 
2.43.0


From acf63577804315d9f68e3bce84463e3df28379c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:53 +0000
Subject: [PATCH 46/46] fix: the selection of a sampler is the one that judged
 it

---
 popsynth/auxiliary_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/popsynth/auxiliary_sampler.py b/popsynth/auxiliary_sampler.py
index a9e0ad0..1a933ec 100644
--- a/popsynth/auxiliary_sampler.py
+++ b/popsynth/auxiliary_sampler.py
@@ -286,6 +286,7 @@ class AuxiliarySampler(
             raise AssertionError()
 
         self._selector = selector  # type: SelectionProbability
+        self._applied_selector = selector
 
     def _apply_selection(self) -> None:
         """
@@ -442,6 +443,7 @@ class AuxiliarySampler(
             self._true_values = None  # type: ArrayLike
 
             self._selector.reset()
+            self._applied_selector = self._selector
 
         else:
 
@@ -671,7 +673,7 @@ class AuxiliarySampler(
         :returns:
 
         """
-        return self._selector.selection
+        return self._applied_selector.selection
 
     @property
     def selector(self) -> SelectionProbability:
-- 
2.43.0

