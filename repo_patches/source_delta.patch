From a4c20cb5551e75e454b58299a2db420ebd82aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 01/53] fix: read the velocity samples from index 0 in the
 maximum entropy method

The Burg recursion read Data[1..N] of a N-element array: the first sample was
ignored and one element past the end was used, so that the spectrum depended on
the content of the heap.
---
 c/mem.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..f7acff0 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -207,15 +207,16 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=0; j < NumberOfData; j++) p += pow(Data[j], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
+    // work arrays start at index 1, Data starts at index 0
+    wk1[1] = Data[0];
+    wk2[NumberOfData-1] = Data[NumberOfData-1];
 
     for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+        wk1[j]=Data[j-1];
+        wk2[j-1]=Data[j-1];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From 28cb1ddcc8115ee38c4aceb065393f3be569eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 02/53] fix: divide the data for the FFT in pieces of equal
 size that cover all of it

Floating point rounding gave, for some lengths, pieces of different size (the
average over pieces then fails) or a last piece that misses the last step.
---
 dynaphopy/power_spectrum/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 28b69e9..04ef01e 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -32,21 +32,18 @@ def _progress_bar(progress, label):
 
 def _division_of_data(resolution, number_of_data, time_step):
 
-    piece_size = round(1./(time_step*resolution))
+    piece_size = max(int(round(1./(time_step*resolution))), 1)
     number_of_pieces = int((number_of_data-1)/piece_size)
 
-    if number_of_pieces > 0:
-        interval = (number_of_data - piece_size)/number_of_pieces
-    else:
-        interval = 0
+    if number_of_pieces == 0:
         number_of_pieces = 1
         piece_size = number_of_data
 
+    # integer arithmetic: all pieces have the same size and the last one ends at the last data
     pieces = []
     for i in range(number_of_pieces+1):
-        ini = int((piece_size/2+i*interval)-piece_size/2)
-        fin = int((piece_size/2+i*interval)+piece_size/2)
-        pieces.append([ini, fin])
+        ini = i*(number_of_data - piece_size)//number_of_pieces
+        pieces.append([ini, ini + piece_size])
 
     return pieces
 
-- 
2.43.0


From bcce5515790f6be3bc2ee2dc46b1cf0d201e56a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 03/53] fix: clear the partial power spectra together with the
 other power spectra

They were kept after changing the algorithm, the frequency range or the number
of coefficients.
---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..c655269 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -68,6 +68,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
-- 
2.43.0


From 8e3d060d3f6b71480876c2f3aebff78fcb772594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 04/53] fix: clear the projections when the atom to project
 onto changes

Velocities and power spectra already calculated for another atom (or for all of
them) were returned.
---
 dynaphopy/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c655269..f7b3996 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -132,6 +132,10 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self._vc = None
+                self._vq = None
+                self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-- 
2.43.0


From 9af9a63d69b3929e885bcfb5f00183e8b984b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 05/53] fix: crop the trajectory itself when results have
 already been calculated

After get_vc() only the projected velocities were cropped: the rest of results
kept the full trajectory, and power spectra, temperature and renormalized force
constants already calculated were returned unchanged.
---
 dynaphopy/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index f7b3996..b80f1bf 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_provided = vc is not None
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -39,6 +40,7 @@ class Quasiparticle:
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
         self._temperature = None
+        self._temperature_provided = False
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -46,7 +48,16 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        if last_steps is not None:
+            # Everything calculated from the previous steps is no longer valid
+            if not self._vc_provided:
+                self._vc = None
+            self._vq = None
+            if not self._temperature_provided:
+                self._temperature = None
+            self.power_spectra_clear()
+
+        if not self._vc_provided:
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
@@ -59,6 +70,7 @@ class Quasiparticle:
         self._eigenvectors = None
         self._frequencies = None
         self._vc = None
+        self._vc_provided = False
         self._vq = None
         self._power_spectrum_direct = None
         self._power_spectrum_wave_vector = None
@@ -134,6 +146,7 @@ class Quasiparticle:
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
             if atom_type != self.parameters.project_on_atom:
                 self._vc = None
+                self._vc_provided = False
                 self._vq = None
                 self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
@@ -1098,6 +1111,7 @@ class Quasiparticle:
 
     def set_temperature(self, temperature):
         self._temperature = temperature
+        self._temperature_provided = temperature is not None
 
     def get_algorithm_list(self):
         return power_spectrum_functions.values()
-- 
2.43.0


From 2c069d166c5bdf24ca263c246634b1c977ec7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 06/53] fix: clear the renormalized force constants when QHA
 force constants are set

The commensurate points data already calculated did not include the new shift.
---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b80f1bf..f2e154e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1463,6 +1463,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From 4cbfcdb62e8738e5becf63944689e2a42525e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 07/53] fix: do not change the commensurate points data when
 writing them with extra

The group velocities were added to the data kept by the object, and appeared in
every file written afterwards without extra data.
---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index f2e154e..05749da 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1260,7 +1260,7 @@ class Quasiparticle:
         pho_interface.save_force_constants_to_file(force_constants, filename)
 
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
-        quasiparticle_data = self.get_commensurate_points_data()
+        quasiparticle_data = dict(self.get_commensurate_points_data())
         if with_extra:
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
-- 
2.43.0


From 5c999e2b08c7ab2ee728cda2fc8e8c229c4a2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 08/53] fix: pass the band ranges to phonopy when printing the
 phonon dispersion

The dictionary with ranges and labels was passed, which always failed unless the
bands had been plotted before.
---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 05749da..8d5956e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -588,7 +588,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From f27810e5d1f145d25b4fc390dcbe3e922f8cd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 09/53] fix: misspelled attribute in the setter of
 save_renormalized_frequencies

Setting the parameter (--save_renormalized_frequencies) had no effect.
---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 0d2ed2ed2ea8e923cb47e09caa5c6531d554669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 10/53] fix: clear the power spectra when the MEM coefficients
 change in interactive mode

The power spectra calculated with the previous number of coefficients were shown.
---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From fb32d59da0e239165854e04a6ed211980a5cdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 11/53] fix: symmetrization of the renormalized force constants

--fcsymm was stored in a parameter that nothing reads, and asking for the
symmetrization failed with the current phonopy interface (the lattice has to be
given in column vectors).
---
 dynaphopy/interface/phonopy_link.py | 4 ++--
 scripts/dynaphopy                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..7165389 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -393,8 +393,8 @@ def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, str
     if symmetrize:
         print('Symmetrizing force constants')
         set_tensor_symmetry_PJ(force_constants.get_array(),
-                               phonon.supercell.get_cell(),
-                               phonon.supercell.get_scaled_positions(),
+                               phonon.supercell.cell.T,
+                               phonon.supercell.scaled_positions,
                                phonon.symmetry)
 
     return force_constants
diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From a38732c423d8c07c12f8d9cd95c7a24fd1e3c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 12/53] fix: put the wave vector back when an analysis over
 several of them fails

---
 dynaphopy/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 8d5956e..b23b05b 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -10,6 +10,7 @@ import dynaphopy.analysis.coordinates as trajdist
 import dynaphopy.analysis.thermal_properties as thm
 import numpy as np
 import matplotlib.pyplot as plt
+import functools
 
 
 from dynaphopy.power_spectrum import power_spectrum_functions
@@ -19,6 +20,18 @@ except ImportError:
     from scipy.integrate import simpson as simps
 
 
+def _keep_reduced_q_vector(method):
+    # The wave vector is put back also if the calculation fails in one of the others
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        reduced_q_vector = self.get_reduced_q_vector()
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self.set_reduced_q_vector(reduced_q_vector)
+    return wrapper
+
+
 class Quasiparticle:
     def __init__(self,
                  dynamic,
@@ -736,6 +749,7 @@ class Quasiparticle:
                 print('{0} : {1}'.format(i, fitting_functions[i]))
             exit()
 
+    @_keep_reduced_q_vector
     def get_power_spectrum_phonon(self):
         if self._power_spectrum_phonon is None:
             print("Calculating phonon projection power spectra")
@@ -763,6 +777,7 @@ class Quasiparticle:
 
         return self._power_spectrum_phonon
 
+    @_keep_reduced_q_vector
     def get_power_spectrum_wave_vector(self):
 
         if self._power_spectrum_wave_vector is None:
@@ -1116,6 +1131,7 @@ class Quasiparticle:
     def get_algorithm_list(self):
         return power_spectrum_functions.values()
 
+    @_keep_reduced_q_vector
     def get_commensurate_points_data(self, auto_range=True):
 
         if self._commensurate_points_data is None:
-- 
2.43.0


From c3413700cef9959a848f878fa53406af2613a2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 13/53] fix: crop of memory mapped trajectories and of the data
 derived from the trajectory

---
 dynaphopy/dynamics.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..40bbe29 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -93,16 +93,9 @@ class Dynamics:
         self.velocity = self.velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
-
-        if self._memmap:
-            filename = self._relative_trajectory.filename
-            self._relative_trajectory = None
-            try:
-                os.remove(filename)
-            except:
-                pass
-        else:
-            self._relative_trajectory = None
+        self._relative_trajectory = None
+        self._mean_displacement_matrix = None
+        self._time_step_average = None
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
 
-- 
2.43.0


From e84be96336d3582098b553d67a049c63d3d4636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 14/53] fix: mean displacement matrix relative to the positions
 requested

---
 dynaphopy/dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 40bbe29..36951cc 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -29,6 +29,7 @@ class Dynamics:
         self._supercell_matrix = None
         self._number_of_atoms = None
         self._mean_displacement_matrix = None
+        self._use_average_positions = None
 
         if structure is not None:
             self._structure = structure
@@ -199,7 +200,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if self._mean_displacement_matrix is None or self._use_average_positions != use_average_positions:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -228,6 +229,7 @@ class Dynamics:
                                                                              ).real / primtive_normalization
 
             self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._use_average_positions = use_average_positions
 
         return self._mean_displacement_matrix
 
-- 
2.43.0


From 385df2786da89ddb5515f2caa920f8acbb280bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 15/53] fix: temporal files of memory mapped arrays are not
 shared between trajectories

---
 dynaphopy/dynamics.py | 53 +++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 36951cc..fdfaa2a 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -1,6 +1,19 @@
 import numpy as np
 from dynaphopy.displacements import atomic_displacements
 import os
+import tempfile
+
+
+def get_temporal_memmap(label, shape):
+    """
+    Memory mapped array in a new file of the temporal directory (DYNAPHOPY_TEMPDIR or current directory)
+    """
+    directory = os.environ.get("DYNAPHOPY_TEMPDIR", '')
+    if not os.path.isdir(directory):
+        directory = os.curdir
+    handle, filename = tempfile.mkstemp(prefix='{0}.{1}.'.format(label, os.getpid()), dir=directory)
+    os.close(handle)
+    return np.memmap(filename, dtype='complex', mode='w+', shape=shape)
 
 
 class Dynamics:
@@ -41,25 +54,22 @@ class Dynamics:
             print('Warning: Initialization without structure')
             self._structure = None
 
-        #Read environtment variables
-        try:
-            self._temp_directory = os.environ["DYNAPHOPY_TEMPDIR"]
-            if os.path.isdir(self._temp_directory):
-                self._temp_directory = self._temp_directory + '/'
-            else:
-                self._temp_directory = ''
-        except KeyError:
-            self._temp_directory = ''
+        # Files of the memory mapped arrays owned by this object
+        self._temporal_files = []
+        if memmap:
+            for array in [trajectory, scaled_trajectory, velocity]:
+                if getattr(array, 'filename', None) is not None:
+                    self._temporal_files.append(array.filename)
+
+    def _new_memmap(self, label, shape):
+        array = get_temporal_memmap(label, shape)
+        self._temporal_files.append(array.filename)
+        return array
 
     def __del__(self):
         #Clean all temporal files from memmap
-        if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
-                try:
-                    filename = mapped_array.filename
-                except AttributeError:
-                    continue
-                del mapped_array
+        for filename in self._temporal_files:
+            if os.path.isfile(filename):
                 os.remove(filename)
 
 # A bit messy, has to be fixed
@@ -137,8 +147,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
-                                                        dtype='complex', mode='w+', shape=self.velocity.shape)
+                self._velocity_mass_average = self._new_memmap('velocity_mass', self.velocity.shape)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
 
@@ -161,8 +170,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
-                                                  dtype='complex', mode='w+', shape=trajectory.shape)
+                normalized_trajectory = self._new_memmap('r_trajectory', trajectory.shape)
             else:
                 normalized_trajectory = self.trajectory.copy()
 
@@ -310,10 +318,7 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
-                                           dtype='complex',
-                                           mode='w+',
-                                           shape=self.get_relative_trajectory().shape)
+                self._velocity = self._new_memmap('velocity', self.get_relative_trajectory().shape)
             else:
                 self._velocity = np.zeros_like(self.get_relative_trajectory(), dtype=complex)
             for i in range(self.get_number_of_atoms()):
-- 
2.43.0


From 31fe9111fedd0289c2df075ac148cfd9eb1b6655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 16/53] fix: skip the first steps of OUTCAR files when
 requested

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..3489c18 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,9 +74,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,6 +82,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-- 
2.43.0


From c900b9bfecec4284dface093aa683c48dd8295ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 17/53] fix: do not read more steps than the maximum number of
 steps

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 3489c18..d975950 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -102,7 +102,7 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             energy.append(np.array(read_energy, dtype=float))
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - initial_cut + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
@@ -315,7 +315,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                 # print(read_coordinates)
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - initial_cut + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
@@ -458,7 +458,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                 # print(read_coordinates)
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - initial_cut + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
-- 
2.43.0


From 64a2eba33d11030bde89f5f602955fc445bf52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 18/53] fix: memory mapped reading of XDATCAR files, one
 temporal file per trajectory

---
 .../interface/iofile/trajectory_parsers.py    | 39 ++++---------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index d975950..a22ac7c 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -145,17 +145,6 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
     # Time in picoseconds
     # Coordinates in Angstroms
 
-    # Read environtment variables
-    try:
-        temp_directory = os.environ["DYNAPHOPY_TEMPDIR"]
-        if os.path.isdir(temp_directory):
-            print('Set temporal directory: {0}'.format(temp_directory))
-            temp_directory += '/'
-        else:
-            temp_directory = ''
-    except KeyError:
-        temp_directory = ''
-
     number_of_atoms = None
     bounds = None
 
@@ -277,7 +266,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = dyn.get_temporal_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -364,17 +353,6 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
     # Time in picoseconds
     # Coordinates in Angstroms
 
-    #Read environtment variables
-    try:
-        temp_directory = os.environ["DYNAPHOPY_TEMPDIR"]
-        if os.path.isdir(temp_directory):
-            print('Set temporal directory: {0}'.format(temp_directory))
-            temp_directory += '/'
-        else:
-            temp_directory = ''
-    except KeyError:
-        temp_directory = ''
-
     number_of_atoms = None
     bounds = None
 
@@ -414,6 +392,13 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
 
+        if memmap:
+            if end_cut:
+                data = dyn.get_temporal_memmap('trajectory', (end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+            else:
+                print('Memory mapping requires to define reading range (use read_from/read_to option)')
+                exit()
+
         while True:
 
             counter += 1
@@ -424,14 +409,6 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
-                if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
-                else:
-                    print('Memory mapping requires to define reading range (use read_from/read_to option)')
-                    exit()
-
-
             #Initial cut control
             if initial_cut > counter:
                 continue
-- 
2.43.0


From 6f0c7ac97fc9dd1eadf03d81a4266a0e78271e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 19/53] fix: time and positions of the same complete steps when
 reading part of a trajectory file

---
 .../interface/iofile/trajectory_parsers.py    | 66 +++++++++++++------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index a22ac7c..5d91b37 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -5,6 +5,14 @@ import dynaphopy.dynamics as dyn
 import warnings
 
 
+# Read the coordinates of one step. None if the file ends before the step is complete
+def _read_step_coordinates(file_map, number_of_atoms, number_of_dimensions):
+    lines = [file_map.readline() for _ in range(number_of_atoms)]
+    if not all(line.endswith(b'\n') for line in lines):
+        return None
+    return np.array([line.split()[0:number_of_dimensions] for line in lines], dtype=float)
+
+
 # VASP OUTCAR file parser
 def read_vasp_trajectory(file_name, structure=None, time_step=None,
                          limit_number_steps=10000000,  # Maximum number of steps read (for security)
@@ -189,7 +197,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             file_map.seek(position_number)
             file_map.readline()
-            time.append(float(file_map.readline()))
+            time_line = file_map.readline()
 
 
             if number_of_atoms is None:
@@ -272,20 +280,22 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                         exit()
 
             position_number = file_map.find(b'ITEM: ATOMS')
+            if position_number < 0:
+                print("Error reading step {0}".format(counter))
+                break
 
             file_map.seek(position_number)
             lammps_labels=file_map.readline()
 
             #Initial cut control
             if initial_cut > counter:
-                time = []
                 continue
 
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-            read_coordinates = np.array(read_coordinates, dtype=float)
+            read_coordinates = _read_step_coordinates(file_map, number_of_atoms, number_of_dimensions)
+            if read_coordinates is None:
+                print("Error reading step {0}".format(counter))
+                break
 
             if template is not None:
                 indexing = np.argsort(template)
@@ -297,6 +307,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(time_line))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
@@ -313,14 +324,22 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     file_map.close()
 
+    if len(time) == 0:
+        print('No complete steps found in the reading range')
+        if memmap and len(data) > 0:
+            os.remove(data.filename)
+        exit()
+
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
@@ -407,18 +426,18 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             if position_number < 0: break
 
             file_map.seek(position_number)
-            time.append(float(file_map.readline().split(b'=')[1]))
+            time_line = file_map.readline()
 
             #Initial cut control
             if initial_cut > counter:
                 continue
 
             #Reading coordinates
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            read_coordinates = _read_step_coordinates(file_map, number_of_atoms, number_of_dimensions)
+            if read_coordinates is None:
+                print("Error reading step {0}".format(counter))
+                break
 
-            read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
@@ -428,6 +447,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
                     data.append(read_coordinates) #in angstroms
+                time.append(float(time_line.split(b'=')[1]))
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
@@ -444,14 +464,22 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     file_map.close()
 
+    if len(time) == 0:
+        print('No complete steps found in the reading range')
+        if memmap and len(data) > 0:
+            os.remove(data.filename)
+        exit()
+
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From bb3cf04d5c6b053aef400ba54655fc3326336fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 20/53] fix: average positions in unit cells with several
 primitive cells

---
 dynaphopy/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index fdfaa2a..ca67fd1 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -273,12 +273,13 @@ class Dynamics:
             index_type = self.structure.get_atom_type_index(supercell=supercell)
 
             number_of_atom_types = self.structure.get_number_of_atom_types()
-            normalization = np.prod(supercell)
+            # number of atoms of each type in the MD supercell
+            normalization = np.unique(index_type, return_counts=True)[1]
 
             averaged_unit_cell = np.zeros((number_of_atom_types, number_of_dimensions), dtype=complex)
 
             for i, coordinates  in enumerate(averaged_positions):
-                averaged_unit_cell[index_type[i], :] += coordinates/normalization
+                averaged_unit_cell[index_type[i], :] += coordinates/normalization[index_type[i]]
 
             averaged_positions = []
             for i in range(positions.shape[0]):
-- 
2.43.0


From 14144f48408e5d5201e4ca4b2d986fc4a82f5713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 21/53] fix: sampling of the average positions with current
 versions of numpy

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index ca67fd1..6d16bfa 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -257,7 +257,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
-- 
2.43.0


From 3adee3ce930727791738702807ae262424fbc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 22/53] fix: velocities calculated from the coordinates
 correspond to the remaining steps after a crop

---
 dynaphopy/dynamics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 6d16bfa..00e84b1 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -33,6 +33,7 @@ class Dynamics:
         self._scaled_trajectory = scaled_trajectory
         self._energy = energy
         self._velocity = velocity
+        self._velocity_calculated = False
         self._supercell = supercell
         self._memmap=memmap
 
@@ -101,7 +102,11 @@ class Dynamics:
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
 
-        self.velocity = self.velocity[-last_steps:, :, :]
+        if self._velocity_calculated:
+            # To be calculated again from the remaining steps
+            self._velocity = None
+        else:
+            self.velocity = self.velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
         self._relative_trajectory = None
@@ -326,9 +331,11 @@ class Dynamics:
                 for j in range(self.structure.get_number_of_dimensions()):
                     self._velocity[:, i, j] = np.gradient(self.get_relative_trajectory()[:, i, j],
                                                           self.get_time_step_average())
+            self._velocity_calculated = True
 
         return self._velocity
 
     @velocity.setter
     def velocity(self,velocity):
-        self._velocity = velocity
\ No newline at end of file
+        self._velocity = velocity
+        self._velocity_calculated = False
\ No newline at end of file
-- 
2.43.0


From 11dfa28e522c4e5d0fb7a10ef215204e353b17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 23/53] fix: time of the steps loaded from a part of a hdf5
 file

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..ef6a20b 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -701,7 +701,7 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         reduced_q_vector = hdf5_file['reduced_q_vector'][:]
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
-    time = hdf5_file['time'][:]
+    time = hdf5_file['time'][initial_cut-1:final_cut]
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From b475fb7ca2116b98af36812379fcec48181206a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 24/53] fix: ignore the incomplete last step of OUTCAR files

---
 .../interface/iofile/trajectory_parsers.py    | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 5d91b37..762357c 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -94,18 +94,27 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             if initial_cut > counter:
                 continue
 
-            read_coordinates = []
-            for i in range (number_of_atoms):
-                read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
+            read_coordinates = _read_step_coordinates(file_map, number_of_atoms, number_of_dimensions) # in angstrom
+            if read_coordinates is None:
+                print("Error reading step {0}".format(counter))
+                break
 
-            read_coordinates = np.array(read_coordinates, dtype=float) # in angstrom
             if template is not None:
                 indexing = np.argsort(template)
                 read_coordinates = read_coordinates[indexing, :]
 
             position_number=file_map.find(b'energy(')
+            if position_number < 0:
+                print("Error reading step {0}".format(counter))
+                break
+
             file_map.seek(position_number)
-            read_energy = file_map.readline().split()[2]
+            energy_line = file_map.readline()
+            if not energy_line.endswith(b'\n'):
+                print("Error reading step {0}".format(counter))
+                break
+
+            read_energy = energy_line.split()[2]
             trajectory.append(read_coordinates.flatten()) #in angstrom
             energy.append(np.array(read_energy, dtype=float))
 
@@ -119,6 +128,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
 
         file_map.close()
 
+        if len(trajectory) == 0:
+            print('No complete steps found in the reading range')
+            exit()
+
         trajectory = np.array([[[trajectory[i][j*number_of_dimensions+k]
                                  for k in range(number_of_dimensions)]
                                 for j in range(number_of_atoms)]
-- 
2.43.0


From a4f1945d6e5ce0882b7342b67ec68e187c8403cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 25/53] fix: do not take the labels of LAMMPS files from an
 incomplete line

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 762357c..a2b9571 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -298,7 +298,11 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                 break
 
             file_map.seek(position_number)
-            lammps_labels=file_map.readline()
+            label_line = file_map.readline()
+            if not label_line.endswith(b'\n'):
+                print("Error reading step {0}".format(counter))
+                break
+            lammps_labels = label_line
 
             #Initial cut control
             if initial_cut > counter:
-- 
2.43.0


From 8b02d71668da293e97f1bfedac0889fd3995b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 26/53] fix: lattice vectors of the supercell of non orthogonal
 cells

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From d6ed7d47961a68161ac85ce0abce521bb6e62320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 27/53] fix: number of atoms of each element in POSCAR files
 when the elements are not sorted

---
 dynaphopy/generate_cell.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..da04e4b 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -7,13 +7,14 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
-
+    # Consecutive atoms of the same element
+    elements = []
+    elements_count = []
+    for element in types:
+        if len(elements) == 0 or elements[-1] != element:
+            elements.append(element)
+            elements_count.append(0)
+        elements_count[-1] += 1
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
     vasp_POSCAR += '1.0\n'
-- 
2.43.0


From d5f84dc1bb621c4fee97523caa971557919e7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 28/53] fix: apply the scaling factor of POSCAR files to
 cartesian positions

---
 dynaphopy/interface/iofile/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index ef6a20b..7b80c7e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -294,7 +294,7 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
                                          for k in range(np.sum(number_of_types))],dtype=float)
         else:
             positions = np.array([data_lines[8+k].split()[0:3]
-                                  for k in range(np.sum(number_of_types))],dtype=float)
+                                  for k in range(np.sum(number_of_types))],dtype=float) * multiply
 
         atomic_types = []
         for i,j in enumerate(data_lines[5].split()):
@@ -312,7 +312,7 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
                                          for k in range(np.sum(number_of_types))], dtype=float)
         else:
             positions = np.array([data_lines[7+k].split()[0:3]
-                                  for k in range(np.sum(number_of_types))], dtype=float)
+                                  for k in range(np.sum(number_of_types))], dtype=float) * multiply
 
         atomic_types = []
         for i,j in enumerate(data_lines[0].split()):
-- 
2.43.0


From e5d33d2badaa0300420e900add8f47c0a81802f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 29/53] fix: sections of the input file after the band ranges

---
 dynaphopy/interface/iofile/__init__.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 7b80c7e..914b7d3 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -577,21 +577,15 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
         if "BANDS" in line:
             bands = []
             labels = []
-            while i < len(input_file)-1:
-                line = input_file[i + 1].replace('\n', '')
+            for band_line in input_file[i+1:]:
+                band_line, _, label_line = band_line.replace('\n', '').partition(':')
                 try:
-                    labels.append(line.split(':')[1].replace('\n','').split(','))
-                    line = line.split(':')[0]
-                except:
-                    pass
-                try:
-                    band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
-                except IOError:
-                    break
+                    band = np.array(band_line.replace(',',' ').split(), dtype=float).reshape((2,3))
                 except ValueError:
                     break
-                i += 1
                 bands.append(band)
+                if label_line != '':
+                    labels.append(label_line.split(','))
             labels = [(label[0].replace(' ',''), label[1].replace(' ','')) for label in labels]
 
             if labels != []:
-- 
2.43.0


From 5fd3ee5d4735afe9b1527c0d25f6e9dbec890d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 30/53] fix: atom types do not depend on the supercell first
 requested

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..7b055c8 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -285,7 +285,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From 1fa56e974d64ee9ccc0b115bf81726037b633289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 31/53] fix: data derived from positions, masses, primitive
 matrix and force sets follow their changes

---
 dynaphopy/atoms.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 7b055c8..4d8b8e5 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -73,6 +73,12 @@ class Structure:
 
     # -------- Methods start here -----------
 
+    # Data derived from the equivalence of the atoms
+    def _atom_types_clear(self):
+        self._atom_type_index = None
+        self._number_of_atom_types = None
+        self._number_of_primitive_atoms = None
+
     # Getting data
     def get_data_from_dict(self, data_dictionary):
         for data in self.__dict__:
@@ -81,6 +87,9 @@ class Structure:
             except KeyError:
                 continue
 
+        if '_primitive_matrix' in data_dictionary:
+            self.set_primitive_matrix(data_dictionary['_primitive_matrix'])
+
     # Cell related methods
     def set_cell(self, cell):
         self._cell = np.array(cell, dtype='double')
@@ -118,9 +127,7 @@ class Structure:
     # Cell matrix related methods
     def set_primitive_matrix(self,primitive_matrix):
         self._primitive_matrix = primitive_matrix
-        self._number_of_atom_types = None
-        self._number_of_primitive_atoms = None
-        self._atom_type_index = None
+        self._atom_types_clear()
         self._primitive_cell = None
 
     def get_primitive_matrix(self):
@@ -134,7 +141,9 @@ class Structure:
 
     # Positions related methods
     def set_positions(self, cart_positions):
-        self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
+        self._positions = np.array(cart_positions, dtype='double')
+        self._scaled_positions = None
+        self._atom_types_clear()
 
     def get_positions(self, supercell=None):
         if self._positions is None:
@@ -182,6 +191,7 @@ class Structure:
 
     def set_force_set(self, force_set):
         self._force_sets = force_set
+        self._force_constants = None
 
     def get_force_sets(self):
 
@@ -197,6 +207,7 @@ class Structure:
 
     def set_masses(self, masses):
         self._masses = np.array(masses, dtype='double')
+        self._atom_types_clear()
 
     def get_masses(self, supercell=None):
         if supercell is None:
-- 
2.43.0


From 5e4e4c70ae2b967461195c5ddfd7b11b9e69cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 32/53] fix: coordinates type of POSCAR files after blanks

---
 dynaphopy/interface/iofile/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 914b7d3..3eec273 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -287,7 +287,7 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     try:
         number_of_types = np.array(data_lines[3+number_of_dimensions].split(),dtype=int)
 
-        coordinates_type = data_lines[4+number_of_dimensions][0]
+        coordinates_type = data_lines[4+number_of_dimensions].strip()[0]
         if coordinates_type == 'D' or coordinates_type == 'd' :
 
             scaled_positions = np.array([data_lines[8+k].split()[0:3]
@@ -306,7 +306,7 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     except ValueError:
         print ("Reading old style POSCAR")
         number_of_types = np.array(data_lines[5].split(), dtype=int)
-        coordinates_type = data_lines[6][0]
+        coordinates_type = data_lines[6].strip()[0]
         if coordinates_type == 'D' or coordinates_type == 'd':
             scaled_positions = np.array([data_lines[7+k].split()[0:3]
                                          for k in range(np.sum(number_of_types))], dtype=float)
-- 
2.43.0


From 946f975c393f8c8da6523856236fa1c46d22c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 33/53] fix: negative scaling factor of POSCAR files

---
 dynaphopy/interface/iofile/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 3eec273..f1dca38 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -280,6 +280,9 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     multiply = float(data_lines[1])
     direct_cell = np.array([data_lines[i].split()
                             for i in range(2, 2+number_of_dimensions)], dtype=float)
+    # A negative scaling factor is the volume of the cell
+    if multiply < 0:
+        multiply = pow(abs(multiply/np.linalg.det(direct_cell)), 1.0/number_of_dimensions)
     direct_cell *= multiply
     scaled_positions = None
     positions = None
-- 
2.43.0


From 66a90834d932cea61154b417f91b7e91d9cb8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 34/53] fix: automatic order of the atoms for any supercell and
 positions given out of the cell

---
 dynaphopy/interface/iofile/__init__.py | 95 +++++++-------------------
 dynaphopy/interface/lammps_link.py     |  4 +-
 2 files changed, 27 insertions(+), 72 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index f1dca38..6ce53e0 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -35,89 +35,42 @@ def check_atoms_order(filename, trajectory_reading_function, structure):
     # Only using first step
     reference = trajectory.trajectory[0]
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell_matrix=trajectory.get_supercell_matrix())
 
     return template
 
 
-def get_correct_arrangement(reference, structure):
-
-    # print structure.get_scaled_positions()
-    scaled_coordinates = []
-    for coordinate in reference:
-        trans = np.dot(coordinate, np.linalg.inv(structure.get_cell()))
-        #print coordinate.real, trans.real
-        scaled_coordinates.append(np.array(trans.real, dtype=float))
-
-    number_of_cell_atoms = structure.get_number_of_atoms()
-    number_of_supercell_atoms = len(scaled_coordinates)
-    supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
-
-    unit_cell_scaled_coordinates = scaled_coordinates - np.array(scaled_coordinates, dtype=int)
-
-    atom_unit_cell_index = []
-    for coordinate in unit_cell_scaled_coordinates:
-        # Only works for non symmetric cell (must be changed)
-
-        diff = np.abs(np.array([coordinate]*number_of_cell_atoms) - structure.get_scaled_positions())
-
-        diff[diff >= 0.5] -= 1.0
-        diff[diff < -0.5] += 1.0
-
-        # print 'diff', diff
-        # print 'postions', structure.get_scaled_positions()
-        index = np.argmin(np.linalg.norm(diff, axis=1))
-
-        # print 'test', coordinate, index
-        atom_unit_cell_index.append(index)
-    atom_unit_cell_index = np.array(atom_unit_cell_index)
-    # np.savetxt('index.txt', np.sort(atom_unit_cell_index))
-
-    # np.savetxt('test.txt', unit_coordinates)
-    # np.savetxt('test2.txt', np.array([type_0(j, cell_size, number_of_cell_atoms)[:3] for j in range(number_of_supercell_atoms)]))
+def get_correct_arrangement(reference, structure, supercell_matrix=None):
+    """
+    :param reference: cartesian positions of the atoms of the supercell in the order of the trajectory
+    :param structure: Structure type object
+    :param supercell_matrix: number of unit cells in each direction (guessed from the positions if not given)
+    :return: index of each one of the atoms in the order used in dynaphopy
+    """
 
-    # print supercell_dim, number_of_supercell_atoms
-    original_conf = np.array([dynaphopy_order(j, supercell_dim)[:3] for j in range(number_of_supercell_atoms)])
+    scaled_coordinates = np.dot(np.array(reference).real, np.linalg.inv(structure.get_cell()))
 
-    # np.savetxt('original.txt', original_conf)
-    # np.savetxt('unitcoor.txt', scaled_coordinates)
+    if supercell_matrix is None:
+        supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    else:
+        supercell_dim = np.array(supercell_matrix, dtype=int)
 
-    # print np.array(scaled_coordinates).shape
-    # print original_conf.shape
+    number_of_cells = np.prod(supercell_dim)
 
     template = []
-    lp_coordinates = []
-    for i, coordinate in enumerate(scaled_coordinates):
-        lattice_points_coordinates = coordinate - structure.get_scaled_positions()[atom_unit_cell_index[i]]
-        # print 'c', i, coordinate, coordinate2
-
-        for k in range(3):
-            if lattice_points_coordinates[k] > supercell_dim[k] - 0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] - supercell_dim[k]
-            if lattice_points_coordinates[k] < -0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] + supercell_dim[k]
-
-        comparison_cell = np.array([lattice_points_coordinates]*number_of_supercell_atoms)
-        diference = np.linalg.norm(diff_matrix(original_conf, comparison_cell, supercell_dim), axis=1)
-        template.append(np.argmin(diference) + atom_unit_cell_index[i]*number_of_supercell_atoms/number_of_cell_atoms)
-
-        lp_coordinates.append(lattice_points_coordinates)
-    template = np.array(template)
-    # lp_coordinates = np.array(lp_coordinates)
-    # print original_conf.shape, lp_coordinates.shape, template.shape
-    # np.savetxt('index2.txt', np.sort(template))
-    # np.savetxt('index_tot.txt', np.sort(template*number_of_cell_atoms + atom_unit_cell_index))
-
-    # inv_template = inverse_template(template)
-    # inv_template = np.argsort(template)
+    for coordinate in scaled_coordinates:
 
-    # dm = diff_matrix(original_conf, lp_coordinates[inv_template], supercell_dim)
-    # dm = diff_matrix(original_conf[template], lp_coordinates, supercell_dim)
+        # Closest atom of the unit cell, accounting for periodicity
+        difference = coordinate - structure.get_scaled_positions()
+        lattice_points = np.round(difference)
+        distance = np.linalg.norm(np.dot(difference - lattice_points, structure.get_cell()), axis=1)
+        atom_unit_cell_index = np.argmin(distance)
 
-    # np.savetxt('template.txt', template)
+        # Unit cell of the supercell, accounting for periodicity
+        x, y, z = np.mod(lattice_points[atom_unit_cell_index].astype(int), supercell_dim)
+        template.append(x + supercell_dim[0] * (y + supercell_dim[1] * z) + atom_unit_cell_index * number_of_cells)
 
-    # np.savetxt('lp.txt', lp_coordinates[inv_template])
-    # np.savetxt('diff.txt', dm)
+    template = np.array(template)
 
     if len(np.unique(template)) < len(template):
         print ('template failed, auto-order will not be applied')
diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..9c14734 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -102,7 +102,9 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
-    template = get_correct_arrangement(reference, structure)
+    supercell_matrix = np.around(np.linalg.norm(simulation_cell, axis=1) /
+                                 np.linalg.norm(structure.get_cell(), axis=1)).astype(int)
+    template = get_correct_arrangement(reference, structure, supercell_matrix=supercell_matrix)
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-- 
2.43.0


From 71c34f6fb4fd4f32d83c5665cc26cf5ce97965dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 35/53] fix: refuse MD cells that are not a multiple of the
 unit cell whatever the sign of the deviations

---
 dynaphopy/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 00e84b1..0be76a8 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -201,8 +201,10 @@ class Dynamics:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
             self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            if abs(sum(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)) > tolerance:
-                print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
+            # Deviations of different sign must not cancel each other
+            deviation = np.linalg.norm(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)
+            if deviation > tolerance:
+                print(deviation)
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
-- 
2.43.0


From d7a83b87a9d14f26c0459747053d11646d2d0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 36/53] fix: phases of the direct Fourier power spectrum

The exponentials had the phase as real part, so that the spectrum grew exponentially
with the frequency. Both integration methods count positive and negative times once, as
the other algorithms do, and trajectories shorter than the step no longer divide by zero.
---
 c/correlation.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..47af99a 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -155,26 +155,20 @@ double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOf
     _Dcomplex Correl_i, Correl_j;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
-            Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
+            // Correlation at positive and negative time (real part is symmetric)
+            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
+                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency*((i+Increment)*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
-
-                    //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
-                    //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
-                    Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
-                    // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
+                    Correl = _Cbuild(creal(Correl) + 2*creal(Correl_i), cimag(Correl) + 2*cimag(Correl_i));
                     break;
             }
         }
     }
-    return  creal(Correl) * TimeStep/(NumberOfData/Increment);
+    return  creal(Correl) * TimeStep*Increment/NumberOfData;
 }
 
 /*
-- 
2.43.0


From 4b654eced677d8d47e9e44e4cfb760903815c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:45 +0000
Subject: [PATCH 37/53] fix: times of the steps in joined HDF5 files

---
 scripts/concath5 | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..4cda598 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -86,6 +86,8 @@ if len(sys.argv) == 1:
 first = args.f[0]
 print("skipping first {0} steps".format(first))
 vc, velocity, trajectory, time, supercell, r_q_vector = read_file_hdf5(args.input[0])
+time_step = (time[-1] - time[0]) / max(len(time) - 1, 1)
+time = time[first:]
 
 
 if args.velocity_only:
@@ -105,7 +107,13 @@ print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # The steps of each file follow those of the previous one
+    new_time = new_time[first:]
+    if len(time) > 0 and len(new_time) > 0:
+        new_time = new_time - new_time[0] + time[-1] + time_step
+    time = np.concatenate((time, new_time))
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From 33322c47f9caceb5e2f332bb8ccdbcb9e457d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:39 +0000
Subject: [PATCH 38/53] fix: crop also the time of a projected velocity read
 from a file

---
 dynaphopy/__init__.py | 1 +
 dynaphopy/dynamics.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b23b05b..c3a207c 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -76,6 +76,7 @@ class Quasiparticle:
         else:
             if last_steps is not None:
                 self._vc = self._vc[-last_steps:, :, :]
+                self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._vc)))
 
     # Memory clear methods
diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 0be76a8..c47137c 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -99,6 +99,11 @@ class Dynamics:
         if self._time is not None:
             self._time = self._time[-last_steps:]
 
+        if (self._trajectory is None and self._relative_trajectory is None and
+                self._scaled_trajectory is None and self._velocity is None):
+            # Nothing else in memory (used with a projected velocity)
+            return
+
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
 
-- 
2.43.0


From 7f45879257c3b86c33266d459115353a614b0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 39/53] fix: free energy of frequency ranges that do not start
 at zero

---
 dynaphopy/analysis/thermal_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index c6dad4f..c6aa522 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -51,7 +51,8 @@ def get_free_energy(temperature, frequency, dos):
     free_energy = np.nan_to_num([dos[i] * k_b * temperature * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature)))
                                  for i, freq in enumerate(frequency)])
 
-    free_energy[0] = 0
+    if frequency[0] == 0:
+        free_energy[0] = 0
     free_energy = simps(free_energy, x=frequency) * N_a / 1000  # KJ/K/mol
     return free_energy
 
-- 
2.43.0


From 36447d595b8e40b8db7a7dd25f15a62f68681415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:32 +0000
Subject: [PATCH 40/53] fix: normalize also the harmonic density of states of
 the anharmonic correction

---
 dynaphopy/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c3a207c..fa663e8 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1325,6 +1325,14 @@ class Quasiparticle:
                                                              projected_on_atom=self.parameters.project_on_atom,
                                                              NAC=self.parameters.use_NAC)
 
+            if normalize_dos:
+                # The same normalization as above
+                phonopy_dos_h[1] /= simps(phonopy_dos_h[1], x=phonopy_dos_h[0]) / (
+                    self.dynamic.structure.get_number_of_atoms() *
+                    self.dynamic.structure.get_number_of_dimensions())
+                if self.parameters.project_on_atom > -1:
+                    phonopy_dos_h[1] /= self.dynamic.structure.get_number_of_primitive_atoms()
+
             free_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
                                                               phonopy_dos[1])
             total_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
-- 
2.43.0


From a272507158adb20f7591bbd69f3954773bef201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 41/53] fix: displacements of one-dimensional cells are wrapped
 (determinant of an empty matrix)

---
 c/displacements.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..1f3210f 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -271,8 +271,8 @@ static double  Determinant(double  **a,int n)
    double  det = 0;
    double  **m = NULL;
 
-   if (n < 1) { /* Error */
-
+   if (n < 1) { /* No rows (cofactors of a 1x1 matrix) */
+      det = 1;
    } else if (n == 1) { /* Shouldn't get used */
       det = a[0][0];
    } else if (n == 2) {
-- 
2.43.0


From aea5f2a7b13084650afc9d2e836bc98b58a9cf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:42 +0000
Subject: [PATCH 42/53] fix: displacement distributions of types with different
 numbers of atoms

---
 dynaphopy/__init__.py             | 6 +++---
 dynaphopy/analysis/coordinates.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index fa663e8..5ad1acc 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1092,12 +1092,12 @@ class Quasiparticle:
 
         projections = trajdist.trajectory_projection(self.dynamic, direction)
 
-        min_val = np.amin(projections)
-        max_val = np.amax(projections)
+        min_val = min([np.amin(projection) for projection in projections])
+        max_val = max([np.amax(projection) for projection in projections])
 
         bins = None
         distributions = []
-        for atom in range(projections.shape[0]):
+        for atom in range(len(projections)):
             distribution, bins = np.histogram(projections[atom],
                                               bins=number_of_bins,
                                               range=(min_val, max_val),
diff --git a/dynaphopy/analysis/coordinates.py b/dynaphopy/analysis/coordinates.py
index 680a246..a2dfcd6 100644
--- a/dynaphopy/analysis/coordinates.py
+++ b/dynaphopy/analysis/coordinates.py
@@ -95,4 +95,5 @@ def trajectory_projection(dynamic, direction):
                                                           direction/np.linalg.norm(direction)))
         projections.append(projection)
 
-    return np.array(projections)
+    # (types of atoms may have different numbers of atoms)
+    return projections
-- 
2.43.0


From c0ad9cc285b17c0dccd9d9e5685da4e8db58a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 43/53] fix: thermal properties displayed with one frequency
 range

---
 dynaphopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 5ad1acc..155b01f 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1347,6 +1347,9 @@ class Quasiparticle:
 
         temperature = self.get_temperature()
 
+        # This sets the frequency range: all the properties should be calculated with the same one
+        self.get_renormalized_force_constants()
+
         print('Using mesh: {0}'.format(self.parameters.mesh_phonopy))
 
         if print_phonopy:
-- 
2.43.0


From f47b0f73da3718c3e92955cd1a077f16e84dbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 44/53] fix: wave vectors of the bands file written as plain
 numbers

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 155b01f..a66c22d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -536,7 +536,7 @@ class Quasiparticle:
         for i, q_path in enumerate(_bands[1]):
 
             band = {'q_path_distances': q_path.tolist(),
-                    'q_bounds': {'inf': list(band_ranges[i][0]), 'sup': list(band_ranges[i][1])},
+                    'q_bounds': {'inf': np.array(band_ranges[i][0]).tolist(), 'sup': np.array(band_ranges[i][1]).tolist()},
                     'harmonic_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
                                              enumerate(_bands[2][i].T)},
                     'renormalized_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
-- 
2.43.0


From dd6bda7d3d93b2ceb11167a9d56884da6ab74cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 45/53] fix: each phonon band paired once with its renormalized
 one, at each wave vector

---
 dynaphopy/__init__.py               | 22 +++++-----------------
 dynaphopy/interface/phonopy_link.py | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index a66c22d..1ce0eb8 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -435,8 +435,7 @@ class Quasiparticle:
             for i, ev_bands in enumerate(bands[3]):
                 if i > 0:
                     ref = bands[3][i-1][-1]
-                    metric = np.abs(np.dot(ref.conjugate().T, ev_bands[0]))
-                    order = np.argmax(metric, axis=1)
+                    order = pho_interface.get_eigenvectors_order(ref, ev_bands[0])
                     bands[2][i] = bands[2][i].T[order].T
                     bands[3][i] = bands[3][i].T[order].T
 
@@ -455,22 +454,11 @@ class Quasiparticle:
                     bands[2][i] = bands[2][i].T[order].T
                     bands[3][i] = bands[3][i].T[order].T
 
-        def eigenvector_order(ev_bands, ev_renormalized):
-            metric = np.zeros_like(np.abs(np.dot(ev_bands[0].conjugate().T, ev_renormalized[0])))
-            for ev_ref, ev in zip(ev_bands, ev_renormalized):
-                metric += np.abs(np.dot(ev_ref.conjugate().T, ev))
-            order = np.argmax(metric, axis=1,)
-            return order
-
         def set_order(bands, renormalized_bands):
-            order_list = []
-            for ev_bands, ev_renormalized in zip(bands[3], renormalized_bands[3]):
-                order = eigenvector_order(ev_bands, ev_renormalized)
-                order_list.append(order)
-
-            freq = np.array(renormalized_bands[2]).copy()
-            for i, o in enumerate(order_list):
-                renormalized_bands[2][i] = freq[i].T[o].T
+            # Each branch is paired at each wave vector: the order of the eigenvectors is not the same along the path
+            for ev_bands, ev_renormalized, freq in zip(bands[3], renormalized_bands[3], renormalized_bands[2]):
+                for i, (ev_ref, ev) in enumerate(zip(ev_bands, ev_renormalized)):
+                    freq[i] = freq[i][pho_interface.get_eigenvectors_order(ev_ref, ev)]
 
         renormalized_force_constants = self.get_renormalized_force_constants()
         bands = self.get_band_ranges_and_labels()
diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index 7165389..debb768 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -1,4 +1,5 @@
 import numpy as np
+from scipy.optimize import linear_sum_assignment
 from phonopy.api_phonopy import Phonopy
 from phonopy.file_IO import parse_BORN, parse_FORCE_SETS, write_FORCE_CONSTANTS, parse_FORCE_CONSTANTS
 from phonopy.harmonic.dynmat_to_fc import DynmatToForceConstants
@@ -284,7 +285,7 @@ def obtain_phonopy_group_velocity(structure, q_point, force_constants=None, NAC=
     return phonon.get_group_velocity_at_q(q_point)
 
 
-def obtain_phonopy_mesh_from_force_constants(structure, force_constants, mesh=(40, 40, 40), NAC=False):
+def obtain_phonopy_mesh_from_force_constants(structure, force_constants, mesh=(40, 40, 40), NAC=False, with_eigenvectors=False):
 
     phonon = get_phonon(structure,
                         setup_forces=False,
@@ -292,12 +293,21 @@ def obtain_phonopy_mesh_from_force_constants(structure, force_constants, mesh=(4
                         NAC=NAC)
     phonon.set_force_constants(force_constants.get_array())
 
-    phonon.run_mesh(mesh)
+    phonon.run_mesh(mesh, with_eigenvectors=with_eigenvectors)
     mesh_dict = phonon.get_mesh_dict()
 
+    if with_eigenvectors:
+        return mesh_dict['qpoints'], mesh_dict['weights'], mesh_dict['frequencies'], mesh_dict['eigenvectors']
+
     return mesh_dict['qpoints'], mesh_dict['weights'], mesh_dict['frequencies']
 
 
+def get_eigenvectors_order(eigenvectors_ref, eigenvectors):
+    # Pairs each eigenvector (columns) of reference with a different one, those of largest overlap
+    metric = np.abs(np.dot(eigenvectors_ref.conjugate().T, eigenvectors))
+    return linear_sum_assignment(-metric)[1]
+
+
 def obtain_phonon_dispersion_bands(structure, bands_ranges, force_constants=None,
                                    NAC=False, band_resolution=30, band_connection=False):
 
-- 
2.43.0


From ff9187ec6ce99fa24c49cc88467b513aea63d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:58 +0000
Subject: [PATCH 46/53] fix: linewidths of the mesh given to the phonons of
 their eigenvectors

---
 dynaphopy/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ce0eb8..6a737fe 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -565,10 +565,11 @@ class Quasiparticle:
                                                                    fc_supercell,
                                                                    symmetrize=self.parameters.symmetrize)
 
-        _, _, linewidths_mesh = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
+        _, _, linewidths_mesh, linewidths_ev = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
                                                                                        force_constants=linewidths_fc,
                                                                                        mesh=self.parameters.mesh_phonopy,
-                                                                                       NAC=None)
+                                                                                       NAC=None,
+                                                                                       with_eigenvectors=True)
 
         frequencies_fc = pho_interface.get_renormalized_force_constants(renormalized_frequencies,
                                                                         eigenvectors,
@@ -576,10 +577,15 @@ class Quasiparticle:
                                                                         fc_supercell,
                                                                         symmetrize=self.parameters.symmetrize)
 
-        qpoints, multiplicity, frequencies_mesh = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
+        qpoints, multiplicity, frequencies_mesh, frequencies_ev = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
                                                                                         force_constants=frequencies_fc,
                                                                                         mesh=self.parameters.mesh_phonopy,
-                                                                                        NAC=None)
+                                                                                        NAC=None,
+                                                                                        with_eigenvectors=True)
+
+        # The linewidth of each phonon is the one of its eigenvector (phonopy sorts frequencies and linewidths)
+        linewidths_mesh = np.array([linewidths[pho_interface.get_eigenvectors_order(ev_ref, ev)]
+                                    for linewidths, ev_ref, ev in zip(linewidths_mesh, frequencies_ev, linewidths_ev)])
 
         return qpoints, multiplicity, frequencies_mesh, linewidths_mesh
 
-- 
2.43.0


From d3395ddfd8dd5796ba38ba28d21ab49619b9e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 47/53] fix: phase of generated trajectories shifts the
 oscillations instead of scaling them

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 6ce53e0..e68726b 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -364,7 +364,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From bbde1e2754e117872c58b8c33b38b4df4fd1ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 48/53] fix: fitdata without band indices lost the first line
 of the data

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..aa5c622 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -63,6 +63,7 @@ except IOError:
 
 if args.bi is None:
     data_num = len(input_file.readline().split())
+    input_file.seek(0)
     degeneracy = [[i] for i in range(1, data_num)]
 else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
-- 
2.43.0


From 35417914389e48d6f5d7822bb4f099ecade8e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 49/53] fix: qha_extract sorts the force constants by volume as
 the other data

---
 scripts/qha_extract | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/qha_extract b/scripts/qha_extract
index 7178267..c7a4d37 100755
--- a/scripts/qha_extract
+++ b/scripts/qha_extract
@@ -128,7 +128,7 @@ for filename in fc_filenames:
     force_constants = phonopy_link.get_force_constants_from_file(filename, fc_supercell=fc_supercell)
     force_constants_mat.append(force_constants.get_array())
 
-force_constants_mat = np.array(force_constants_mat).T
+force_constants_mat = np.array(force_constants_mat)[sort_index].T
 f_temperature = interp1d(volumes, force_constants_mat, kind='quadratic')
 
 # Get force constants at the requested temperature
-- 
2.43.0


From d8f836ed295b609ede502d4257c81be94d0640d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 50/53] fix: rfc_calc reads the files of quasiparticle data
 written by dynaphopy

---
 scripts/rfc_calc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..1f29c07 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -56,14 +56,20 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     renormalized_frequencies = []
     import yaml
     with open(freq_filename, 'r') as stream:
-        data_dict = yaml.safe_load(stream)
+        data = yaml.safe_load(stream)
+        q_points = list(data.values()) if isinstance(data, dict) else data
         for wv in com_points:
-            for q_point in data_dict.values():
+            for q_point in q_points:
                 # print q_point
                 # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+                difference = np.array(q_point['reduced_wave_vector']) - wv
+                if np.allclose(difference, np.rint(difference), rtol=0, atol=1e-5):
                     renormalized_frequencies.append(q_point['frequencies'])
                     # com_points.append(q_point['reduced_wave_vector'])
+                    break
+            else:
+                print('Wave vector {} not found in {}'.format(wv, freq_filename))
+                exit(1)
 
     renormalized_frequencies = np.array(renormalized_frequencies)
     #com_points = np.array(com_points)
-- 
2.43.0


From 3879934bd97f854785078f03eb59fcfe7ec4e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 51/53] fix: supercell given to rfc_calc used for the force
 constants

---
 scripts/rfc_calc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 1f29c07..e942d9e 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -49,6 +49,8 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
         else:
             print('please define supercell phonon in inputfile')
             exit()
+    else:
+        fc_supercell = np.diag(args.dim)
 
     com_points = pho_interface.get_commensurate_points(structure, fc_supercell)
 
-- 
2.43.0


From ab78066267c6ca042685f8ec0dd47c3b441fd7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:41 +0000
Subject: [PATCH 52/53] fix: rfc_calc figure with the bands of the input file,
 in one pair of axes

---
 scripts/rfc_calc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index e942d9e..9f63533 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -90,7 +90,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
 
     if '_band_ranges' in input_parameters:
-        band_ranges = input_parameters['_band_ranges']
+        band_ranges = input_parameters['_band_ranges']['ranges']
     else:
         band_ranges = structure.get_path_using_seek_path()['ranges']
 
@@ -107,8 +107,8 @@ def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
     for i,freq in enumerate(renormalized_bands[1]):
         plt.plot(bands[1][i],bands[2][i],color ='b', label='Harmonic (0K)')
         plt.plot(renormalized_bands[1][i],renormalized_bands[2][i],color ='r', label='Renormalized')
-        plt.axes().get_xaxis().set_visible(False)
-    plt.axes().get_xaxis().set_ticks([])
+        plt.gca().get_xaxis().set_visible(False)
+    plt.gca().get_xaxis().set_ticks([])
     plt.ylabel('Frequency [THz]')
     plt.xlabel('Wave vector')
     plt.xlim([0, renormalized_bands[1][-1][-1]])
-- 
2.43.0


From 87e8c410f79047447a2684ec944d1e40083cdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:37 +0000
Subject: [PATCH 53/53] fix: read the scaling factor of XDATCAR files

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index a2b9571..9c76937 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -419,11 +419,16 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         file_map = mmap.mmap(f.fileno(), 0)
 
         #Read cell
-        for i in range(2): file_map.readline()
+        file_map.readline()
+        multiply = float(file_map.readline())
         a = file_map.readline().split()
         b = file_map.readline().split()
         c = file_map.readline().split()
         super_cell = np.array([a, b, c], dtype='double')
+        # A negative scaling factor is the volume of the cell
+        if multiply < 0:
+            multiply = pow(abs(multiply/np.linalg.det(super_cell)), 1.0/3)
+        super_cell *= multiply
 
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
-- 
2.43.0

