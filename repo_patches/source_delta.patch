From e2302aa9a70a4c6b83b0fafccba17075824e00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 01/81] fix: multinomial() was off by one because of truncated
 floating point

exp(log(n!) - sum(log(k!))) is often just below the integer coefficient, which int()
truncates: multinomial(4,3,1) returned 3.
---
 coniii/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1fb5315..394bd6b 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -516,9 +516,12 @@ def unravel_index(ijk, n):
     return ix
 
 def multinomial(*args):
-    from scipy.special import factorial
+    from math import factorial
     assert sum(args[1:])==args[0]
-    return int(np.exp( np.log(factorial(args[0])) - sum([np.log(factorial(a)) for a in args[1:]]) ))
+    coeff = factorial(args[0])
+    for a in args[1:]:
+        coeff //= factorial(a)
+    return coeff
 
 def _expand_binomial(a, b, n=2):
     """Expand a product of binomials that have the same coefficients given by a and b.
-- 
2.43.0


From 2c5b87bb9919fcdd46078fe8dc4b9ecf77c50f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 02/81] fix: vec2mat() never checked the number of parameters

The floor division made the assertion on n always true, such that with separate_fields=True a
vector of the wrong size gave fields and couplings of different dimensions.
---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 394bd6b..fc25c91 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1390,7 +1390,7 @@ def vec2mat(multipliers, separate_fields=False):
         Fields if separate_fields keyword argument is True.
     """
 
-    n = (np.sqrt(1+8*multipliers.size)-1)//2
+    n = (np.sqrt(1+8*multipliers.size)-1)/2
     assert (n%1)==0, "Must be n fields and (n choose 2) couplings."
     n = int(n)
 
-- 
2.43.0


From ddf5fbcaa7f8c2d83deba3a58625da8a4e306dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 03/81] fix: k_corr() ignored exclude_empty

The averages over nonzero entries were computed and then overwritten by the plain averages.
---
 coniii/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index fc25c91..1f1932d 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -243,7 +243,8 @@ def k_corr(X, k,
         for counter,ijk in enumerate(combinations(range(N), k)):
             p = np.prod(X[:,ijk], axis=1)
             kcorr[counter] = p[p!=0].mean()
-    
+        return kcorr
+
     if weights is None:
         weights = np.ones(S)/S
     for counter,ijk in enumerate(combinations(range(N), k)):
-- 
2.43.0


From aff99a857a5b30e07705be7eca6641d7099d89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 04/81] fix: pair counts overflowed in pair_corr() and
 calc_overlap() for 8 bit samples

The matrix product was taken in the sample's own type, such that pair_corr() with
exclude_empty or a tuple of weights was wrong for more than 127 int8 samples.
---
 coniii/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 1f1932d..bd081c2 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -107,7 +107,8 @@ def calc_overlap(sample,ignore_zeros=False):
         Instead of normalizing by the number of spins, normalize by the minimum number of
         nonzero spins.
     """
-    overlap = sample.dot(sample.T)
+    # product in floating point because counts overflow small integer types
+    overlap = sample.astype(float).dot(sample.T)
     if ignore_zeros:
         countZeros = np.zeros((len(sample),len(sample),2))
         countZeros[:,:,0] = (sample==0).sum(1)[:,None]
@@ -172,7 +173,8 @@ def pair_corr(X,
     # Calculate pairwise correlations depending on whether or not exclude_empty was set or not.
     if type(weights) is tuple:
         si = X.sum(0) * weights[0]
-        sisj = (X.T.dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
+        # product in floating point because counts overflow small integer types
+        sisj = (X.T.astype(float).dot(X))[np.triu_indices(X.shape[1],k=1)] * weights[1]
     else:
         si = (X*weights[:,None]).sum(0)
         sisj = (X.T.dot(X*weights[:,None]))[np.triu_indices(X.shape[1],k=1)]
-- 
2.43.0


From 8a88cebcbde839c267455e2553ae2b999022d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 05/81] fix: digits I and J were swapped in base_repr() for
 bases larger than 18

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index bd081c2..ba446f8 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -10,7 +10,7 @@ from scipy.spatial.distance import squareform
 from scipy.special import binom
 from warnings import warn
 NUMERALS = '0123456789'
-ALPHNUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
 
 @njit(cache=True)
@@ -356,7 +356,7 @@ def _small_base(i, base):
   
 @njit
 def _large_base(i, base):
-    ALPHANUM = '0123456789ABCDEFGHJIKLMNOPQRSTUVWXYZ'
+    ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
     exponent = int(np.log(i)/np.log(base))
     term = int(i/base**exponent)
-- 
2.43.0


From 3c3e8815a353426c8510012a07709b3f5419d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 06/81] fix: Potts equations could not be written for more than
 10 states

States beyond 9 are labelled by letters, which int() and the comparison with str(k) did not
account for.
---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..1bea825 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -146,7 +146,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i],36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -216,7 +216,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i],36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0


From 7d02193dffb78f9d96e286fced9e9f788134c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 07/81] fix: define_ising_helper_functions_sym() could not be
 compiled

The types of couplings and states were swapped in the signature of the energy sum.
---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index ba446f8..04aa2b6 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1007,7 +1007,7 @@ def define_ising_helper_functions_sym():
         mch_approximation
     """
 
-    @njit("float64[:](int64[:],float64[:,:])", cache=True)
+    @njit("float64[:](float64[:],int64[:,:])", cache=True)
     def fast_sum(J,s):
         """Helper function for calculating energy in calc_e(). Iterates couplings J."""
         e = np.zeros((s.shape[0]))
-- 
2.43.0


From 67acddc1f2cb41e4a9f136ef376833ea394ed45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 08/81] fix: burn_in=0 was taken as n_iters by the samplers

---
 coniii/samplers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..ef90479 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1214,7 +1214,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         
         bsampler = BoostIsing(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
@@ -1255,7 +1255,7 @@ class Metropolis(Sampler):
             Saved array of energies at each sampling step.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=sample_size)):
             self._samples = self.random_sample(1)
@@ -1346,7 +1346,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
 
         # Parallel sample. Each thread needs to return sample_size/n_cpus samples.
         def f(args, n=self.n, multipliers=self.theta):
@@ -1390,7 +1390,7 @@ class Metropolis(Sampler):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = mp.cpu_count()
         if (initial_sample is None and
             (self._samples is None or len(self._samples)!=n_cpus)):
@@ -1480,7 +1480,7 @@ class Metropolis(Sampler):
             Energy of each sample.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
@@ -1840,7 +1840,7 @@ class Potts3(Metropolis):
             randomly.
         """
         
-        burn_in = burn_in or n_iters
+        burn_in = n_iters if burn_in is None else burn_in
         n_cpus = self.nCpus  # alias
         assert n_cpus>=2, "Sampler is not set up for multiprocessing, nCpus<=1."
         assert sample_size>n_cpus, "Parallelization only helps if many samples are generated per thread."
-- 
2.43.0


From 28963e104b2c56b8cc12816e5e0fd450e21184e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 09/81] fix: energy history of generate_sample_py() ended with
 an entry that was never set

---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ef90479..0c2aa31 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1001,7 +1001,7 @@ class ParallelTempering(Sampler):
 #                # set rng for jit environment
 #                np.random.seed(seed)
 #
-#                history = np.zeros(sample_size*n_iters+1)
+#                history = np.zeros(sample_size*n_iters)
 #                history[0] = E
 #                counter = 1
 #                for i in range(sample_size):
@@ -1279,7 +1279,7 @@ class Metropolis(Sampler):
                 E += de
         
         if saveHistory:
-            history = np.zeros(sample_size*n_iters+1)
+            history = np.zeros(sample_size*n_iters)
 
             if systematic_iter:
                 counter = 0
-- 
2.43.0


From bbab6403a71827573ff8d7a3fa2e7052f97cf9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 10/81] fix: systematic iteration restarted at the first spin
 for every sample

With n_iters smaller than the number of spins, the remaining spins were never updated.
---
 coniii/samplers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 0c2aa31..6a90c2b 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1285,7 +1285,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+counter)%self.n )
                         E += de
                         history[counter] = E
                         counter += 1
@@ -1307,7 +1307,7 @@ class Metropolis(Sampler):
                 counter = 0
                 for i in range(sample_size):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
+                        de = self.sample_metropolis( self._samples[0], E, flip_site=(burn_in+counter)%self.n )
                         E += de
                         counter +=1
                     self.sample[i,:] = self._samples[:]
@@ -1431,7 +1431,7 @@ class Metropolis(Sampler):
 
                 for i in range(nSamples):
                     for j in range(n_iters):
-                        de = self.sample_metropolis( s, E, rng=rng, flip_site=j%self.n )
+                        de = self.sample_metropolis( s, E, rng=rng, flip_site=(burn_in+i*n_iters+j)%self.n )
                         E += de
                     samples[i,:] = s[:]
                 return samples, s, E
@@ -1650,7 +1650,7 @@ class Metropolis(Sampler):
                     counter = 0
                     for i in range(sample_size):
                         for j in range(n_iters):
-                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
+                            de = self.sample_metropolis(s, E, rng=self.rng, flip_site=(burn_in+counter)%nSubset, calc_e=cond_calc_e)
                             E += de
                             counter += 1
                         self.sample[i,:] = s[:]
-- 
2.43.0


From 366b789faf1a5576fc7e5b9e95f777634b426d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 11/81] fix: generate_cond_sample_py() overwrote initial_sample
 instead of starting from it

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 6a90c2b..239fd96 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1568,7 +1568,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = np.array(initial_sample, dtype=int)
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
@@ -1623,7 +1623,7 @@ class Metropolis(Sampler):
         else:
             if not systematic_iter:
                 def loop():
-                    s = self.rng.choice([-1,1], size=nSubset)
+                    s = self.sample[0].copy()
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
@@ -1640,7 +1640,7 @@ class Metropolis(Sampler):
                         self.E[i] = E
             else:
                 def loop():
-                    s = self.rng.choice([-1,1], size=nSubset)
+                    s = self.sample[0].copy()
                     E = cond_calc_e(s[None,:], self.theta)
  
                     for j in range(burn_in):
-- 
2.43.0


From 5b8986c0470c69c20299e33ad9a0ec2dc848929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 12/81] fix: conditional sampling accepted indices of spins
 that do not exist

The compiled sampler wrote outside of the state.
---
 coniii/samplers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 239fd96..0d115ae 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1484,6 +1484,7 @@ class Metropolis(Sampler):
         assert sample_size>0 and n_iters>-1 and burn_in>-1
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
+        assert fixed_subset_[0][0]>=0 and fixed_subset_[0][-1]<self.n
         assert frozenset((-1,1)) >= set(fixed_subset_[1])
 
         # reformat for C++ module, note that Boost still relies on 32-bit ints
@@ -1562,6 +1563,7 @@ class Metropolis(Sampler):
         nSubset = self.n - len(fixed_subset)
         fixed_subset_ = list(zip(*fixed_subset))
         assert (np.diff(fixed_subset_[0]) > 0).all()
+        assert fixed_subset_[0][0]>=0 and fixed_subset_[0][-1]<self.n
         assert frozenset((-1,1)) >= set(fixed_subset_[1])
 
         # Initialize sampler.
-- 
2.43.0


From 4bfa24dcbfde50c1e4d6a8fc874b5b39564af549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 13/81] fix: conditional sampling failed when all spins are
 fixed

The compiled sampler read outside of its list of free spins or divided by zero.
---
 coniii/samplers.py | 13 ++++---------
 cpp/samplers.cpp   |  6 +++---
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 0d115ae..6825961 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1657,19 +1657,14 @@ class Metropolis(Sampler):
                             counter += 1
                         self.sample[i,:] = s[:]
                         self.E[i] = E
-            # run sampling
-            loop()
+            # run sampling unless there is no free spin
+            if nSubset>0:
+                loop()
 
         # Insert fixed spins back in.
-        counter = 0
         for i, s in fixed_subset:
-            if i==0:
-                self.sample = np.insert(self.sample, list(range(i, self.sample.size, nSubset+counter)), s)
-            else:
-                self.sample = np.insert(self.sample, list(range(i, self.sample.size+1, nSubset+counter)), s)
-            counter += 1
+            self.sample = np.insert(self.sample, i, s, axis=1)
 
-        self.sample = np.reshape(self.sample, (sample_size, self.n))
         self.E = np.concatenate(self.E)
 
     def sample_metropolis(self, sample0, E0,
diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..d1e994c 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -139,7 +139,7 @@ void Sampler::generate_cond_sample(np::ndarray new_ix,
                                    int const n_iters,
                                    bool const systematic_iter) {
     std::uniform_int_distribution<> unitrng(0,1);
-    std::uniform_int_distribution<int> intrng(0,n-1-new_ix.shape(0));
+    std::uniform_int_distribution<int> intrng(0,std::max(0,n-1-(int)new_ix.shape(0)));
     sample = std::vector<std::vector<int>> (n_samples, std::vector<int>(n,0));
     std::vector<int> s(n);  // state that we are randomly flipping
     std::vector<int> ix;  // indices of spins to fix
@@ -175,7 +175,7 @@ void Sampler::generate_cond_sample(np::ndarray new_ix,
     
     // generate random samples
     // burn in
-    for (int i=0; i<burn_in; ++i) {
+    for (int i=0; i<burn_in && !non_ix.empty(); ++i) {
         if (systematic_iter) {
             randix = non_ix[counter%(n-ix.size())];
             counter++;
@@ -186,7 +186,7 @@ void Sampler::generate_cond_sample(np::ndarray new_ix,
     }
     // record samples
     for (int i=0; i<n_samples; ++i) {
-        for (int j=0; j<n_iters; ++j) {
+        for (int j=0; j<n_iters && !non_ix.empty(); ++j) {
             if (systematic_iter) {
                 randix = non_ix[counter%(n-ix.size())];
                 counter++;
-- 
2.43.0


From 634ba92fb72b3d958f0d196b63abdc16aef9ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 14/81] fix: fetch_sample() took the address of the first
 element of an empty sample

---
 cpp/samplers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index d1e994c..a71921a 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -216,7 +216,7 @@ np::ndarray Sampler::fetch_sample() {
     py::tuple stride = py::make_tuple(sizeof(std::vector<int>::value_type)*n,
                                       sizeof(std::vector<int>::value_type));
     np::dtype dt = np::dtype::get_builtin<int>();
-    np::ndarray output = np::from_data(&flatsample[0], dt, shape, stride, py::object());
+    np::ndarray output = np::from_data(flatsample.data(), dt, shape, stride, py::object());
     np::ndarray output_array = output.copy();
 
     return output_array;
-- 
2.43.0


From 292849f07516f6506949845016b147c8791afee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 15/81] fix: compiled samplers misread parameters that are not
 contiguous doubles

---
 cpp/samplers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index a71921a..38c2f23 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,9 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // array passed in may be of any type and not contiguous
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +398,9 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // array passed in may be of any type and not contiguous
+    np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(input.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From fc9a49be51b68e156714afed3e0c82dab308a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 16/81] fix: BoostIsing.readin_multipliers() did not replace
 the couplings used for sampling

---
 cpp/samplers.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 38c2f23..3071d39 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -285,18 +285,9 @@ Ising::Ising(int n, std::vector<double> multipliers, int seed)
 
 Ising::Ising(int n, np::ndarray new_multipliers, int seed)
  : Sampler(n, new_multipliers, seed) {
-     int counter = 0;
-
      // read in numpy array
      readin_multipliers(new_multipliers);
 
-     // setup couplings by copying to a matrix
-     for (int i=0; i<(n-1); ++i) {
-         for (int j=i+1; j<n; ++j) {
-             couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
-             counter++;
-         }
-     }
      // check that diagonal is zero
      for (int i=0; i<n; ++i) {
          assert (couplingMat[i][i]==0);
@@ -313,6 +304,15 @@ void Ising::readin_multipliers(np::ndarray new_multipliers) {
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
     }
+
+    // setup couplings by copying to a matrix
+    int counter = 0;
+    for (int i=0; i<(n-1); ++i) {
+        for (int j=i+1; j<n; ++j) {
+            couplingMat[i][j] = couplingMat[j][i] = multipliers[counter+n];
+            counter++;
+        }
+    }
 };
 
 // Initialize samples with random -1, 1 values
-- 
2.43.0


From 03d7c5e754c1b64fe5d9fe25b0a3efe8c13b789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 17/81] fix: Potts3.generate_sample() sampled from an Ising
 model when using boost

---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 6825961..05a63d9 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1813,6 +1813,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                              sample_size,
+                              n_iters=1000,
+                              burn_in=None,
+                              systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+
+        burn_in = n_iters if burn_in is None else burn_in
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From adf1895c31cc85e4a58ca54ecc44c9844fc5c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 18/81] fix: WolffIsing relied on np.bool which has been
 removed from numpy

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 05a63d9..54e89fe 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
-- 
2.43.0


From 47bd328f4f6c080731e075f638ce43c1694421ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 19/81] fix: WolffIsing.one_step() chose a random spin when
 asked to start from the first one

---
 coniii/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 54e89fe..e792d0a 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -322,7 +322,8 @@ class WolffIsing(Sampler):
         self.expdJ = np.exp(-2*state[:,None]*J*state[None,:])
 
         # Choose random site.
-        initialsite = initialsite or self.rng.randint(n)
+        if initialsite is None:
+            initialsite = self.rng.randint(n)
         cluster = self.build_cluster(state,initialsite)
         
         # Flip cluster?
-- 
2.43.0


From 122bd6f60132d330bbf645913d05c643d122f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 20/81] fix: WolffIsing overwrote the initial sample passed in

---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index e792d0a..dcd9ed0 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -252,7 +252,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         
         if save_history:
             history = np.zeros((samplesize,self.n,n_iters+1))
@@ -277,7 +277,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         #if (n_iters%self.n)!=0:
         #    n_iters = (n_iters//self.n+1)*self.n  # hit each spin the same number of times
         #    print "Increased n_iters to %d"%n_iters
-- 
2.43.0


From 563a2068472ce097031f2fd2b5124d68e5be124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 21/81] fix: WolffIsing.generate_sample_parallel() did not draw
 its seeds from its own generator

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index dcd9ed0..191d55a 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -290,7 +290,7 @@ class WolffIsing(Sampler):
             return s
         
         pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+        sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         pool.close()
         return sample
 
-- 
2.43.0


From 3fd986ef6a07ad96476ff37707cacad07d47bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 22/81] fix: replicas of ParallelTempering ignored the random
 number generator passed in

---
 coniii/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 191d55a..1fce14e 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -683,7 +683,9 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                             rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                             boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From eda751e4a0b3af89ee1c7e9cd0638ee65037a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 23/81] fix: define_jit_cond_calc_e() looked up the values of
 the fixed spins at the wrong place

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 1fce14e..d063677 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1743,9 +1743,9 @@ def define_jit_cond_calc_e(n, calc_e, fixed_subset):
         i0 = 0
         stateix = 0
         # Fill all spins in between fixed ones.
-        for i in range(0, fixed_subset.size, 2):
-            i = fixed_subset[i]
-            s = fixed_subset[i+1]
+        for k in range(0, fixed_subset.size, 2):
+            i = fixed_subset[k]
+            s = fixed_subset[k+1]
             for ii in range(i0, i):
                 fullstate[0,ii] = state[0,stateix] 
                 stateix += 1
-- 
2.43.0


From 2dc5a3f0a2b2094b6c3c3c28031e9bd3da307756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 24/81] fix: iterate_neighbors() of WolffIsing could not be
 compiled

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index d063677..2085c02 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -396,7 +396,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From bb9a08c79efba591a3461f9d15974e2fbde12398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 25/81] fix: WolffIsing refused couplings in matrix form

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2085c02..847172a 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -228,7 +228,7 @@ class WolffIsing(Sampler):
             Local fields.
         """
 
-        assert len(J)==(len(h)*(len(h)-1)//2)
+        assert J.shape==(len(h),len(h)) or len(J)==(len(h)*(len(h)-1)//2)
 
         from scipy.spatial.distance import squareform
 
-- 
2.43.0


From f93ad6da3949108f230bcabd6df87a514bea8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 26/81] fix: compiled samplers read outside of parameter arrays
 of the wrong length

---
 cpp/samplers.cpp | 12 ++++++++----
 cpp/samplers.hpp |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 3071d39..addcb1a 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -295,8 +295,10 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 };
 
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
-    int input_size = new_multipliers.shape(0);
-    assert (input_size==(n+n*(n-1)/2));
+    int input_size = new_multipliers.get_nd()==1 ? new_multipliers.shape(0) : -1;
+    if (input_size!=(n+n*(n-1)/2)) {
+        throw std::invalid_argument("Number of parameters does not match system size.");
+    }
     // array passed in may be of any type and not contiguous
     np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
     double* input_ptr = reinterpret_cast<double*>(input.get_data());
@@ -396,8 +398,10 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 };
 
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
-    int input_size = new_multipliers.shape(0);
-    assert (input_size==(n*3+n*(n-1)/2));
+    int input_size = new_multipliers.get_nd()==1 ? new_multipliers.shape(0) : -1;
+    if (input_size!=(n*3+n*(n-1)/2)) {
+        throw std::invalid_argument("Number of parameters does not match system size.");
+    }
     // array passed in may be of any type and not contiguous
     np::ndarray input = new_multipliers.astype(np::dtype::get_builtin<double>());
     double* input_ptr = reinterpret_cast<double*>(input.get_data());
diff --git a/cpp/samplers.hpp b/cpp/samplers.hpp
index 903c49d..36b3262 100644
--- a/cpp/samplers.hpp
+++ b/cpp/samplers.hpp
@@ -34,6 +34,7 @@
 #include <boost/python/numpy.hpp>
 #include <iterator>
 #include <algorithm>
+#include <stdexcept>
 
 #endif /* samplers_hpp */
 
-- 
2.43.0


From 3e31100363b76e8da2435e87e31f5a01040963ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 27/81] fix: pickled parameters of BoostPotts3 pointed to
 memory of the sampler

---
 cpp/samplers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index addcb1a..c20f825 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -489,5 +489,6 @@ np::ndarray Potts3::multipliers2ndarray() {
     py::tuple stride = py::make_tuple(sizeof(std::vector<double>::value_type));
     np::dtype dt = np::dtype::get_builtin<double>();
     np::ndarray ndmultipliers = np::from_data(&multipliers[0], dt, shape, stride, py::object());
-    return ndmultipliers;
+    // owns its data, which might outlive this sampler
+    return ndmultipliers.copy();
 };
-- 
2.43.0


From d4666a4e0109f15108d889575248a9c6b4ebc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 28/81] fix: Enumerate.solve() failed when only constraints are
 given

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..6f50fc1 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -262,12 +262,12 @@ class Enumerate(Solver):
             Output from scipy.optimize.root.
         """
         
-        if not initial_guess is None:
-            assert initial_guess.size==self.constraints.size
-        else: initial_guess = np.zeros(self.constraints.size)
         if constraints is None:
             constraints = self.constraints
             assert not constraints is None
+        if not initial_guess is None:
+            assert initial_guess.size==constraints.size
+        else: initial_guess = np.zeros(constraints.size)
         
         # default solver routine
         if use_root:
-- 
2.43.0


From 61fef3f2b3ea40b052ba581f827b24519157a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 29/81] fix: sparse solvers failed with a single parameter

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 6f50fc1..9f1a1f0 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 3a8a1204dacf5113fa4710735a55f1ce16e72623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 30/81] fix: sparse solvers could not use the constraints
 calculated from the sample

---
 coniii/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 9f1a1f0..b7dbcd6 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -403,7 +403,8 @@ class SparseEnumerate(Solver):
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
             constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not constraints is None
+            constraints = constraints[self.parameterIx]
         
         # default solver routine
         if use_root:
@@ -1190,7 +1191,8 @@ class SparseMCH(Solver):
         else: initial_guess = np.zeros(self.parameterIx.size)
         if constraints is None:
             constraints = self.constraints
-            assert not constraints is None and constraints.size==self.parameterIx.size
+            assert not constraints is None
+            constraints = constraints[self.parameterIx]
 
 
         # set up for solution
-- 
2.43.0


From 7995119edff642ff191924376b993e4d398d60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 31/81] fix: MPF could not be used with the adj and calc_de
 arguments

---
 coniii/solvers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b7dbcd6..e3cdc4a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -492,9 +492,8 @@ class MPF(Solver):
         self.basic_setup(sample, model, calc_observables, iprint, model_kwargs=default_model_kwargs)
         if adj is None:
             from .utils import adj
-            self.adj = adj
-        if calc_de is None:
-            self.calc_de = calc_de  # imported from utils.py
+        self.adj = adj
+        self.calc_de = calc_de
         
     @staticmethod
     def worker_objective_task( s, Xcount, adjacentStates, params, calc_e ):
-- 
2.43.0


From dced5ff8c8f85b54bb0b70e1b803b8bff34ae742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 32/81] fix: MPF.list_adjacent_states() failed for
 all_connected=False

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index e3cdc4a..e44af3c 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -644,7 +644,7 @@ class MPF(Solver):
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-                if np.sum(ix)==X.shape[1]:
+                if not ix.any():
                     raise Exception("This data set does not satisfy MPF assumption that each \
                                     state be connected to at least one non-data state (?)")
                 adjacentStates[-1] = adjacentStates[-1][ix]
-- 
2.43.0


From 093c737fcab46c0629db9884dc1c4d934d155ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 33/81] fix: gradient of MPF.logK() was shifted by a constant

---
 coniii/solvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index e44af3c..816c892 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -616,7 +616,6 @@ class MPF(Solver):
             power -= power.max()
             objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
                           (np.exp(power)*Xcount[:,None]).sum())
-        objGrad -= np.log(Xcount.sum())
         
         if objGrad.size==1:
             raise Exception("")
-- 
2.43.0


From 6613c0a776d74a87d2b1b0a7c792f299a38c6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 34/81] fix: MCH ran one iteration more than allowed

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 816c892..6c4923d 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -927,7 +927,7 @@ class MCH(Solver):
                 if iprint: print("Solved.")
                 errflag = 0
                 keepLooping=False
-            elif counter > maxiter:
+            elif counter >= maxiter:
                 if iprint: print("Over maxiter")
                 errflag = 1
                 keepLooping=False
@@ -1257,7 +1257,7 @@ class SparseMCH(Solver):
                 if iprint: print("Solved.")
                 errflag = 0
                 keepLooping=False
-            elif counter>maxiter:
+            elif counter>=maxiter:
                 if iprint: print("Over maxiter")
                 errflag = 1
                 keepLooping=False
-- 
2.43.0


From 4f17c3d408a891274257691e6d28303e5db73762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 35/81] fix: MPF assumed that all states have the same number
 of neighbors

---
 coniii/solvers.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 6c4923d..12f6db9 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -598,24 +598,25 @@ class MPF(Solver):
 
         obj = 0.
         objGrad = np.zeros((params.size))
-        power = np.zeros((len(Xuniq), len(adjacentStates[0])))  # energy differences
+        power = []  # energy differences, states may have different numbers of neighbors
         for i,s in enumerate(Xuniq):
-            power[i,:] = .5*( self.model.calc_e(s[None,:], params) -
-                              self.model.calc_e(adjacentStates[i], params) )
+            power.append( .5*( self.model.calc_e(s[None,:], params) -
+                               self.model.calc_e(adjacentStates[i], params) ) )
+        power = np.concatenate(power)
+        nAdj = [len(a) for a in adjacentStates]
+        Xcount = np.repeat(Xcount, nAdj) / Xcount.sum()
             
-        obj = logsumexp( power + np.log(Xcount)[:,None] -np.log(Xcount.sum()) )
+        obj = logsumexp( power + np.log(Xcount) )
         
         if self.calc_de is None:
             return obj
 
         # coefficients that come out from taking derivative of exp
         for i in range(params.size):
-            gradcoef = np.zeros((len(Xuniq), len(adjacentStates[0])))  
-            for j,s in enumerate(Xuniq): 
-                gradcoef[j,:] = .5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+            gradcoef = np.concatenate([.5 * ( self.calc_de(s[None,:],i) - self.calc_de(adjacentStates[j],i) )
+                                       for j,s in enumerate(Xuniq)])
             power -= power.max()
-            objGrad[i] = ((gradcoef*np.exp(power)*Xcount[:,None]).sum() /
-                          (np.exp(power)*Xcount[:,None]).sum())
+            objGrad[i] = (gradcoef*np.exp(power)*Xcount).sum() / (np.exp(power)*Xcount).sum()
         
         if objGrad.size==1:
             raise Exception("")
@@ -639,7 +640,7 @@ class MPF(Solver):
             adjacentStates.append( self.adj(s).astype(int) )
             # Remove states already in data
             if not all_connected:
-                ix = np.zeros((s.size))==0
+                ix = np.zeros((len(adjacentStates[-1])))==0
                 for i,t in enumerate(adjacentStates[-1]):
                     if np.any(np.all(t[None,:]==Xuniq,1)):
                         ix[i] = False
-- 
2.43.0


From 22ff28062b58cf376f7101ca1558bc0d06948279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 36/81] fix: Pseudo.pseudo_log_likelihood() called a function
 that does not exist

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 12f6db9..45bc860 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2130,7 +2130,7 @@ class Pseudo(Solver):
             J should be symmetric
         """
 
-        return np.sum([ cond_log_likelihood(r,X,J) for r in range(len(J)) ])
+        return np.sum([ self.cond_log_likelihood(r, X, J[r]) for r in range(len(J)) ])
 #end Pseudo
 
 
-- 
2.43.0


From 4fe79a930f5bbd447f225ce1a3cea1d12ebc8c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 37/81] fix: Model.generate_sample() ignored generate_kwargs

---
 coniii/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coniii/models.py b/coniii/models.py
index 3109061..55399a5 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -112,7 +112,8 @@ class Model():
                 self.sampler.update_parameters(multipliers)
                 self.sampler.generate_sample(sample_size,
                                              n_iters=n_iters,
-                                             burn_in=burn_in)
+                                             burn_in=burn_in,
+                                             **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
@@ -123,7 +124,8 @@ class Model():
 
                 self.sampler.generate_sample_parallel(sample_size,
                                                       n_iters=n_iters,
-                                                      burn_in=burn_in)
+                                                      burn_in=burn_in,
+                                                      **generate_kwargs)
                 self.sample = self.sampler.sample
             else:
                 raise NotImplementedError("Unrecognized sampler.")
-- 
2.43.0


From 218a77607aa83d42bdb74971e451c886dc053975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 38/81] fix: Ising did not accept the matrix of parameters of
 two spins

---
 coniii/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index 55399a5..d86e001 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -151,7 +151,9 @@ class Ising(Model):
             assert multipliers>1, "System size must be greater than 1."
             self.n = multipliers
             multipliers = np.zeros(self.n+self.n*(self.n-1)//2)
-        if len(multipliers)==2:
+        is_matrix = (type(multipliers) is np.ndarray and multipliers.ndim==2 and
+                     multipliers.shape[0]==multipliers.shape[1])
+        if len(multipliers)==2 and not is_matrix:
             # case where two vectors are given
             self.n = len(multipliers[0])
             assert self.n*(self.n-1)/2==len(multipliers[1]), "Must be n fields and (n choose 2) couplings."
-- 
2.43.0


From a66e34f4651d662214d5fb90711bc89c6415bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 39/81] fix: models without a sampler failed on set_rng() and
 on asking for a sample

---
 coniii/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coniii/models.py b/coniii/models.py
index d86e001..0e37883 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -15,6 +15,9 @@ from .samplers import Potts3 as mcPotts3
 class Model():
     """Basic model class outline.
     """
+    sampler = None  # set by setup_sampler()
+    sample = None  # set by generate_sample()
+
     def __init__(self, multipliers, rng=None, verbose=False):
         """
         Parameters
@@ -75,7 +78,8 @@ class Model():
         rng : np.random.RandomState
         """
         self.rng = rng
-        self.sampler.rng = rng
+        if not self.sampler is None:
+            self.sampler.rng = rng
 
     def generate_sample(self, n_iters, burn_in,
                         multipliers=None,
-- 
2.43.0


From 8dac1259b557e96d8c2420bdd5460bf37f306364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:14 +0000
Subject: [PATCH 40/81] fix: Ising.calc_observables was not defined for large
 systems

---
 coniii/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/models.py b/coniii/models.py
index 0e37883..b21c7fe 100644
--- a/coniii/models.py
+++ b/coniii/models.py
@@ -188,6 +188,7 @@ class Ising(Model):
         except ModuleNotFoundError:
             self._calc_observables = None
             self._calc_p = None
+            self.calc_observables = None
             self.calc_p = None
         self.set_multipliers(multipliers)
 
-- 
2.43.0


From 31993f86223e49659632e687aafa3ddf238fafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 41/81] fix: entropy of clusters given in any other than
 ascending order was wrong

---
 coniii/mean_field_ising.py | 1 +
 coniii/solvers.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 11e3c4a..bc0bba8 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -160,6 +160,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
                               even when meanFieldPriorLmbda = 0.
     """
     
+    cluster = sorted(cluster)
     coocMatCluster = coocCluster(coocMat,cluster)
     # in case we're given an upper-triangular coocMat:
     coocMatCluster = symmetrizeUsingUpper(coocMatCluster)
diff --git a/coniii/solvers.py b/coniii/solvers.py
index 45bc860..b16e4a2 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2202,6 +2202,7 @@ class ClusterExpansion(Solver):
             Matrix of couplings.
         """
 
+        cluster = sorted(cluster)  # only upper triangle of coocMat may be given
         if len(cluster) == 0:
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
-- 
2.43.0


From e2f3c663403ec512696ef5c371f86a970909bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 42/81] fix: analytic results for clusters of one and two spins
 used an undefined logarithm

---
 coniii/solvers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b16e4a2..4a46c1a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2207,19 +2207,19 @@ class ClusterExpansion(Solver):
             raise Exception
         elif (len(cluster) == 1) and useAnalyticResults:
             p = coocMat[cluster[0],cluster[0]]
-            J = np.array( [ [ -log( p / (1.-p) ) ] ] )
+            J = np.array( [ [ -np.log( p / (1.-p) ) ] ] )
         elif (len(cluster) == 2) and useAnalyticResults:
             i = min(cluster[0],cluster[1])
             j = max(cluster[0],cluster[1])
             pi = coocMat[i,i]
             pj = coocMat[j,j]
             pij = coocMat[i,j]
-            Jii1 = -log( pi / (1.-pi) )
-            Jjj1 = -log( pj / (1.-pj) )
-            Jii = -log( (pi - pij)/(1.-pi-pj+pij) )
-            Jjj = -log( (pj - pij)/(1.-pi-pj+pij) )
-            Jij = - log( pij ) + log( pi - pij ) + log( pj - pij )    \
-                - log( 1.-pi-pj+pij )
+            Jii1 = -np.log( pi / (1.-pi) )
+            Jjj1 = -np.log( pj / (1.-pj) )
+            Jii = -np.log( (pi - pij)/(1.-pi-pj+pij) )
+            Jjj = -np.log( (pj - pij)/(1.-pi-pj+pij) )
+            Jij = - np.log( pij ) + np.log( pi - pij ) + np.log( pj - pij )    \
+                - np.log( 1.-pi-pj+pij )
             J = np.array( [ [ Jii, 0.5*Jij ], [ 0.5*Jij, Jjj ] ] )
         else:
             coocMatCluster = mean_field_ising.coocCluster(coocMat,cluster)
-- 
2.43.0


From 40e04c15d8bf68d2a0350402a7a2cac5049b25ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 43/81] fix: cluster expansion about the mean field called an
 undefined function

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4a46c1a..95d362a 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2338,7 +2338,7 @@ class ClusterExpansion(Solver):
             deltaJcluster -= J0cluster
         elif meanFieldRef:
             # subtract mean field reference entropy
-            S0cluster,J0cluster = SmeanField(cluster,coocMat,
+            S0cluster,J0cluster = mean_field_ising.SmeanField(cluster,coocMat,
                 meanFieldPriorLmbda,numSamples)
             deltaScluster -= S0cluster
             deltaJcluster -= J0cluster
@@ -2496,7 +2496,7 @@ class ClusterExpansion(Solver):
         if independentRef:
             ent, J0 = self.Sindependent(cluster, coocMat)
         elif meanFieldRef:
-            ent, J0 = SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
+            ent, J0 = mean_field_ising.SmeanField(cluster, coocMat, meanFieldPriorLmbda, numSamples)
         else:
             ent = 0.
             J0 = np.zeros((N,N))
-- 
2.43.0


From bb27dc29bfeda94b6281be043750b6e7111ed523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:32 +0000
Subject: [PATCH 44/81] fix: mean field couplings were wrong for degenerate
 correlation matrices

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index bc0bba8..d02a3f6 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -188,7 +188,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
             gamma = meanFieldPriorLmbda / numSamples
         else:
             gamma = 0.
-        mq,vq = scipy.linalg.eig(M)
+        mq,vq = scipy.linalg.eigh(M)
         mqhat = 0.5*( mq-gamma +                        \
                 scipy.sqrt((mq-gamma)**2 + 4.*gamma) )
         jq = 1./mqhat #1. - 1./mqhat
-- 
2.43.0


From bc84518a00a870eb2ae85cb4f5c02668c1528e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 45/81] fix: ClusterExpansion.solve() failed for a cluster of a
 single spin

---
 coniii/solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 95d362a..ab91242 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2468,6 +2468,14 @@ class ClusterExpansion(Solver):
         clusters = {}
         size = 1
         clusters[1] = [ [i] for i in cluster ]
+        for gamma in clusters[1]:
+            self.deltaS(gamma, coocMat, deltaSdict, deltaJdict,
+                        iprint=veryVerbose,
+                        meanFieldRef=meanFieldRef,
+                        priorLmbda=priorLmbda,
+                        numSamples=numSamples,
+                        independentRef=independentRef,
+                        meanFieldPriorLmbda=meanFieldPriorLmbda)
 
         while len(clusters[size]) > 0:
             clusters[ size+1 ] = []
-- 
2.43.0


From 5f5f1768a8c9f2f97457c54642072e3b12846c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 46/81] fix: pseudoLogLikelihood() used all couplings for every
 spin

---
 coniii/pseudo_inverse_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index 42d72bd..aaf7933 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -217,7 +217,7 @@ def pseudoLogLikelihood(samples,J,minSize=0):
                 
     (Could probably be made more efficient.)
     """
-    return scipy.sum([ conditionalLogLikelihood(r,samples,J,minSize) \
+    return scipy.sum([ conditionalLogLikelihood(r,samples,J[r],minSize) \
                        for r in range(len(J)) ])
 
 
-- 
2.43.0


From c4aa0e82489b256a10ed0a08679595638a06c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:55 +0000
Subject: [PATCH 47/81] fix: dmdT() was not the derivative of m()

---
 coniii/mean_field_ising.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index d02a3f6..c881ce6 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -94,9 +94,9 @@ def avgE(h,J,ell,T):
     
 def dmdT(h,J,ell,T):
     mr = m(h,J,ell,T)
-    hloc = (ell-1)*mr*J - h
+    hloc = 2.*(ell-1)*mr*J + h
     
-    return hloc/(4.*T**2) / cosh(-hloc/(2.*T))**2 / (1.+(ell-1)*J/(4.*T)*cosh(-hloc/(2.*T))**-2)
+    return hloc/(4.*T**2) / cosh(-hloc/(2.*T))**2 / (1.+(ell-1)*J/(2.*T)*cosh(-hloc/(2.*T))**-2)
     
 def specificHeat(h,J,ell,T):
     mr = m(h,J,ell,T)
-- 
2.43.0


From eb70ca3c2bcdfa0b8663913833ff1160cbb12b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 48/81] fix: regularized mean field doubled the parameters and
 tuned them on samples of another model

---
 coniii/solvers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index ab91242..f4fd492 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2672,16 +2672,21 @@ class RegularizedMeanField(Solver):
         freqsList = np.diag(coocMatData)
         pmean = np.mean(freqsList)
         
+        # convert J to {-1,1} basis
+        def translate(J):
+            h = -J.diagonal()
+            J = -zero_diag((J + J.T)/2)
+            return convert_params( h, squareform(J)*2, '11', concat=True )
+
         # Generate samples from model (need to translate parameters)
         def samples(J):
            self.model.set_rng(get_rng())
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           self.model.set_multipliers(translate(J))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample+1)/2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
@@ -2731,12 +2736,7 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
-
-        # convert J to {-1,1} basis
-        h = -J.diagonal()
-        J = -zero_diag(J)
-        self.multipliers = convert_params( h, squareform(J)*2, '11', concat=True )
+        self.multipliers = translate(J)
 
         return self.multipliers
 
-- 
2.43.0


From 8bff197b1528bcc900f6a9497448b5c68480ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 49/81] fix: mean field couplings were not exactly symmetric as
 needed by ClusterExpansion.solve()

---
 coniii/mean_field_ising.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index c881ce6..5db428d 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -206,6 +206,7 @@ def SmeanField(cluster,coocMat,meanFieldPriorLmbda=0.,
         
         logMvals = scipy.log( scipy.linalg.svdvals(M) )
         ent = Sind + 0.5*scipy.sum(logMvals)
+    JMF = 0.5*(JMF + JMF.T)  # remove rounding errors
     
     # calculate diagonal (h) parameters
     piFactor = scipy.repeat( [(freqs-0.5)/(freqs*(1.-freqs))],
-- 
2.43.0


From 2f4c6c29aadba59c0b03b01eeb05d635215c1abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 50/81] fix: Hessian passed to the minimizer of the older
 pseudolikelihood was wrong

---
 coniii/pseudo_inverse_ising.py | 4 ++--
 coniii/solvers.py              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index aaf7933..ed6bfa9 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -61,7 +61,7 @@ def pseudoInverseIsing(samples,minSize=0):
         Jr0[r] = hList[r]
         
         # 12.10.2013
-        samplesRhat = data.copy()
+        samplesRhat = 2.*data
         samplesRhat[:,r] = scipy.ones(len(data))
         # calculate once and pass to hessian algorithm for speed
         pairCoocRhat = pairCoocMat(samplesRhat)
@@ -137,7 +137,7 @@ def conditionalHessian(r,samples,Jr,minSize=0,pairCoocRhat=None):
     Returns d^2 conditionalLogLikelihood / d Jri d Jrj,
     with shape (dimension of system)x(dimension of system)
     
-    pairCooc (None)     : Pass pairCoocMat(samples) to speed
+    pairCoocRhat (None) : Pass pairCoocMat(samplesRhat) to speed
                           calculation.
     
     Current implementation uses more memory for speed.
diff --git a/coniii/solvers.py b/coniii/solvers.py
index f4fd492..bf201b2 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2000,7 +2000,7 @@ class Pseudo(Solver):
             Jr0 = np.zeros(self.n)
             Jr0[r] = hList[r]
             
-            XRhat = X.copy()
+            XRhat = 2.*X
             XRhat[:,r] = np.ones(len(X))
             # calculate once and pass to hessian algorithm for speed
             pairCoocRhat = self.pair_cooc_mat(XRhat)
@@ -2083,7 +2083,7 @@ class Pseudo(Solver):
         Parameters
         ----------
         pairCooc : ndarray, None
-            Pass pair_cooc_mat(X) to speed calculation.
+            Pass pair_cooc_mat(samplesRhat) to speed calculation.
         """
 
         X, Jr = np.array(X), np.array(Jr)
-- 
2.43.0


From 51f3c2d72c404adc822bb2f1217d32cc3f12e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 51/81] fix: Solver.logp() failed for a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index bf201b2..4e385ae 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From e5ea9a851519f0a9fb937e95e40d7c51de2d1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 52/81] fix: Pseudo could not be set up without a sample

---
 coniii/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 4e385ae..863b4d1 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1694,7 +1694,8 @@ class Pseudo(Solver):
         if calc_observables_r is None or get_multipliers_r is None:
             self.get_multipliers_r, self.calc_observables_r = define_pseudo_ising_helper_functions(self.n)
         else:
-            assert sample.max()<=(k-1)
+            if not self.sample is None:
+                assert self.sample.max()<=(k-1)
             self.k = k
             self.get_multipliers_r, self.calc_observables_r = get_multipliers_r, calc_observables_r
 
-- 
2.43.0


From 16c353b522613d09d80891f9c0256e35208687c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 53/81] fix: front end for Ising models did not accept lists

---
 coniii/ising/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/ising/utils.py b/coniii/ising/utils.py
index 8bc36c9..d5d595c 100644
--- a/coniii/ising/utils.py
+++ b/coniii/ising/utils.py
@@ -55,12 +55,14 @@ class Ising():
             h = np.zeros(n)+h
         else:
             assert len(h)==n, "Number of fields should be equal to n."
+            h = np.array(h)
         if J is None:
             J = np.zeros(n*(n-1)//2)
         elif not hasattr(J, '__len__'):
             J = np.zeros(n*(n-1)//2)+J
         else:
             assert len(J)==(n*(n-1)//2), "Number of couplings should be equal to n choose 2."
+            J = np.array(J)
         assert h.ndim==1 and J.ndim==1, "Both h and J must be provided as vectors."
         
         self.n = n
-- 
2.43.0


From a16cc2d82c33bec9b2088af3ba6f7e815cb3afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 54/81] fix: coarse_grain_with_func() joined spins with
 themselves if no similarity is positive

---
 coniii/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 04aa2b6..6f30a23 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1342,10 +1342,9 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
         newClusters = []
         for i in range(n//2):
             # find maximally correlated pair of spins
-            mxix = np.argmax(cij.ravel())
-            mxix = (mxix//(n-2*i), mxix%(n-2*i))  # row and col
-            if mxix[0]>mxix[1]:
-                mxix = (mxix[1],mxix[0])
+            row, col = np.triu_indices(n-2*i, k=1)  # diagonal is no pair
+            mxix = np.argmax(cij[row,col])
+            mxix = (row[mxix], col[mxix])
             
             newClusters.append((ix[mxix[0]], ix[mxix[1]]))
             # remove corresponding rows and cols of combined pair
-- 
2.43.0


From 51b51792e9c7021ec8caea852578dfcd4579b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 55/81] fix: Ising2D accepted neither arrays nor integers as
 fields

---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..636aaaf 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+(0 if h is None else h)
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From d95395c91c06b30e4e2dd9aa5c8d7447044a101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 56/81] fix: spins of Ising2D were aligned against the local
 field

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 636aaaf..f6fb1a0 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -99,7 +99,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From 36f02b1c3d9bf257e7660a0fcc00063670f6d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 57/81] fix: coarse_grain() assumed a square lattice

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index f6fb1a0..82dbbac 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -122,11 +122,11 @@ def coarse_grain(lattice, factor):
     """
 
     reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
-    reL=len(reLattice)
+    reL=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reL[0],:reL[1]]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From 58d6360ac5032271c848db6ec30d92a17817f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 58/81] fix: Ising2D ignored the random number generator passed
 in

---
 coniii/ising/automaton.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 82dbbac..ca26495 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
+        self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+(0 if h is None else h)
-        self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
         """
@@ -58,6 +58,12 @@ class Ising2D():
                     i, j = ix_//dim[1], ix_%dim[1]
                     flip_metropolis(i, j, h[i,j], J, lattice)
 
+        # compiled functions use a random number generator of their own
+        @njit
+        def seed_compiled(seed):
+            np.random.seed(seed)
+        seed_compiled(self.rng.randint(2**31-1))
+
         lattice=self.lattice
         counter = 0
         while counter < n_iters:
-- 
2.43.0


From 33b33fe1b501a3efac2bbd1e904018199d9663cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 59/81] fix: base_repr() was wrong for numbers beyond double
 precision

---
 coniii/utils.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 6f30a23..7310884 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -333,12 +333,10 @@ def base_repr(i, base):
 @njit
 def _small_base(i, base):
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
+    exponent = 0
+    while i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(NUMERALS[term])
     i -= term*base**exponent
     
@@ -348,7 +346,7 @@ def _small_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(NUMERALS[term])
             i -= term*baseToExp
         exponent -= 1
@@ -358,12 +356,10 @@ def _small_base(i, base):
 def _large_base(i, base):
     ALPHANUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
     rep = []
-    exponent = int(np.log(i)/np.log(base))
-    term = int(i/base**exponent)
-    # handle problematically rounded cases
-    if term==base:
+    exponent = 0
+    while i//base**exponent>=base:
         exponent += 1
-        term = 1
+    term = i//base**exponent
     rep.append(ALPHANUM[term])
     i -= term*base**exponent
     
@@ -373,7 +369,7 @@ def _large_base(i, base):
         if baseToExp>i:
             rep.append('0')
         else:
-            term = int(i/baseToExp)
+            term = i//baseToExp
             rep.append(ALPHANUM[term])
             i -= term*baseToExp
         exponent -= 1
-- 
2.43.0


From 0d00b3c47041f0ebacc0371c80bea6fd1ff089cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 60/81] fix: positions of interactions were inexact in large
 systems

---
 coniii/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 7310884..8d7eeb6 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -8,6 +8,7 @@ from scipy.special import logsumexp
 from itertools import combinations
 from scipy.spatial.distance import squareform
 from scipy.special import binom
+from math import comb
 from warnings import warn
 NUMERALS = '0123456789'
 ALPHNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
@@ -239,7 +240,7 @@ def k_corr(X, k,
     
     assert frozenset(np.unique(X))<=frozenset([-1,0,1])
     S, N = X.shape
-    kcorr = np.zeros(int(binom(N,k)))
+    kcorr = np.zeros(comb(N,k))
     
     if exclude_empty:
         for counter,ijk in enumerate(combinations(range(N), k)):
@@ -442,7 +443,7 @@ def ising_convert_params(oparams, convert_to, concat=False):
     
     oparams = oparams[::-1]
     n = len(oparams[-1])
-    params = [np.zeros(int(binom(n,i))) for i in range(len(oparams),0,-1)]
+    params = [np.zeros(comb(n,i)) for i in range(len(oparams),0,-1)]
     
     if convert_to=='01':
         # basically need to expand polynomials to all lower order terms
@@ -507,10 +508,10 @@ def unravel_index(ijk, n):
     assert (np.diff(ijk)>0).all()
     assert all([i<n for i in ijk])
 
-    ix = sum([int(binom(n-1-i,len(ijk)-1)) for i in range(ijk[0])])
+    ix = sum([comb(n-1-i,len(ijk)-1) for i in range(ijk[0])])
     for d in range(1, len(ijk)-1):
         if (ijk[d]-ijk[d-1])>1:
-            ix += sum([int(binom(n-i-1,len(ijk)-d-1)) for i in range(ijk[d-1]+1, ijk[d])])
+            ix += sum([comb(n-i-1,len(ijk)-d-1) for i in range(ijk[d-1]+1, ijk[d])])
     ix += ijk[-1] -ijk[-2] -1
     return ix
 
@@ -535,7 +536,7 @@ def _expand_binomial(a, b, n=2):
     
     coeffs=[]
     for i in range(n+1):
-        coeffs.extend( [a**(n-i)*b**i]*int(binom(n,i)) )
+        coeffs.extend( [a**(n-i)*b**i]*comb(n,i) )
     return coeffs
 
 def split_concat_params(p, n):
@@ -557,8 +558,8 @@ def split_concat_params(p, n):
     counter = 0
     i = 1
     while counter<len(p):
-        splitp.append( p[counter:counter+int(binom(n,i))] )
-        counter += int(binom(n,i))
+        splitp.append( p[counter:counter+comb(n,i)] )
+        counter += comb(n,i)
         i += 1
     return splitp
 
-- 
2.43.0


From a5f938dbc912adc8b206dde7a86a9a6cc85b0da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 61/81] fix: get_nidx() called a function that was not imported

---
 coniii/enumerate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..d63d530 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -392,6 +392,7 @@ def get_nidx(k, n):
     print where(exact.get_nidx(3,4))
     <<<<<
     """
+    from .utils import bin_states
     
     if k==n:
         return np.reshape(list(range(n)),(n,1))
-- 
2.43.0


From 51e2d9aa8893c5f9d52f3b5270ecc4a6906e3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 62/81] fix: convert_corr() failed when given the deprecated
 convertTo

---
 coniii/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 8d7eeb6..c13920a 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -591,7 +591,7 @@ def convert_corr(si, sisj, convert_to, concat=False, **kwargs):
     if 'convertTo' in kwargs.keys():
         from warnings import warn
         warn("convertTo kwarg is deprecated as of v1.1.2. Use convert_to instead.")
-        convert_to = convertTo
+        convert_to = kwargs['convertTo']
     elif len(kwargs.keys())>0:
         raise TypeError("Unexpected keyword argument.")
 
-- 
2.43.0


From 00632222ae986e39b559e5f5a96fbc1a6a9f20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 63/81] fix: predictions of large MCH steps overflowed

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index c13920a..8a1eafa 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -968,6 +968,7 @@ def define_ising_helper_functions():
     def mch_approximation(samples, dlamda):
         """Function for making MCH approximation step for Ising model."""
         dE = calc_e(samples, dlamda)
+        dE -= dE.min()
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = pair_corr(samples, weights=np.exp(-dE)/len(dE), concat=True) * ZFraction  
         assert not (np.any(predsisj < -1.00000001) or
@@ -1204,6 +1205,7 @@ def define_potts_helper_functions(k):
         """
 
         dE = calc_e(sample, dlamda)
+        dE -= dE.min()
         ZFraction = len(dE) / np.exp(logsumexp(-dE))
         predsisj = (np.exp(-dE[:,None]) / len(dE) * calc_observables(sample)).sum(0) * ZFraction  
         assert not ((predsisj<0).any() or
-- 
2.43.0


From 10a04c9ccb9839cc4784aad99ae4a70105cd5777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 64/81] fix: sequential sampling failed after parallel sampling
 with as many processes as states requested

generate_sample_parallel_py() leaves one state per process behind; a following
generate_sample_py() of that many states took them for its own single state.
---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 847172a..327be52 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1260,7 +1260,7 @@ class Metropolis(Sampler):
         
         burn_in = n_iters if burn_in is None else burn_in
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or len(self._samples)!=sample_size or len(self._samples)>1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From ec342d5255d77548207179957acb463085309537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:37 +0000
Subject: [PATCH 65/81] fix: check_e_logp() imported a package that does not
 exist

---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 327be52..e629ccb 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -2428,7 +2428,7 @@ def check_e_logp(sample, calc_e):
     calc_e
     """
 
-    from misc.utils import unique_rows
+    from .utils import unique_rows
 
     uniqueix = unique_rows(sample,return_inverse=True)
     uniqStates = sample[unique_rows(sample)]
-- 
2.43.0


From 0b4e622cc6a9ba9c654a067e4655a9404541c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 66/81] fix: compiled samplers read outside their buffers after
 2^31 systematic updates

The number of updates overflowed, and the index of the next spin became negative.
---
 cpp/samplers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index c20f825..c0868c7 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -99,7 +99,7 @@ void Sampler::generate_sample(int const n_samples,
     std::vector<int> s(n);  // state that we are randomly flipping
     double e;  // energy of current state
     int randix;
-    int counter = 0;
+    long long counter = 0;  // number of updates, may exceed the range of int
     
     // initialize random starting vector
     s = init_sample();
@@ -147,7 +147,7 @@ void Sampler::generate_cond_sample(np::ndarray new_ix,
     std::vector<int> vals;  // values of spins to fix
     double e;  // energy of current state
     int randix;
-    int counter = 0;
+    long long counter = 0;  // number of updates, may exceed the range of int
     
     // set up indices
     ix.clear();
-- 
2.43.0


From 370c2ebdf934c6f8524058f74abc13742ae5336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 67/81] fix: split_concat_params() never returned for vectors
 longer than all parameters

Vectors of any other impossible length were split into incomplete parts.
---
 coniii/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index 8a1eafa..c1ad60b 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -558,6 +558,7 @@ def split_concat_params(p, n):
     counter = 0
     i = 1
     while counter<len(p):
+        assert i<=n and (counter+comb(n,i))<=len(p), "Number of parameters does not match system size."
         splitp.append( p[counter:counter+comb(n,i)] )
         counter += comb(n,i)
         i += 1
-- 
2.43.0


From d51485d592da382ee3cf62ee6be6526ffaccd406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 68/81] fix: pseudolikelihood was wrong when the initial guess
 consists of integers

---
 coniii/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 863b4d1..f090d05 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1768,7 +1768,7 @@ class Pseudo(Solver):
         for r in range(self.n):
             # to use below...
             multipliersrix = self.get_multipliers_r(r, initial_guess)[1]
-            guess = initial_guess.copy()
+            guess = np.array(initial_guess, dtype=float)
 
             # params only change the terms relevant to the particular spin being considered
             def f(params):
@@ -1833,7 +1833,7 @@ class Pseudo(Solver):
         def f(params):
             # running sums of function evaluations over all spins
             loglikelihood = 0
-            dloglikelihood = np.zeros_like(initial_guess)  # gradient
+            dloglikelihood = np.zeros(initial_guess.size)  # gradient
 
             # iterate through each spin
             for r in range(self.n):
@@ -1904,7 +1904,7 @@ class Pseudo(Solver):
         def f(params):
             # running sums of function evaluations over all spins
             loglikelihood = 0
-            dloglikelihood = np.zeros_like(initial_guess)  # gradient
+            dloglikelihood = np.zeros(initial_guess.size)  # gradient
 
             # iterate through each spin
             for r in range(self.n):
-- 
2.43.0


From 9523315d37de3a95f0cdabfa6dd9e8580584167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 69/81] fix: MCH failed when the initial guess consists of
 integers

---
 coniii/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index f090d05..675f5a4 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -871,7 +871,7 @@ class MCH(Solver):
         # parameters is stored.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = initial_guess.copy()
+            self._multipliers = np.array(initial_guess, dtype=float)
         else:
             self._multipliers = np.zeros((len(constraints)))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
@@ -1202,7 +1202,7 @@ class SparseMCH(Solver):
         # the ones that have been set to 0.
         if not (initial_guess is None):
             assert len(initial_guess)==len(constraints)
-            self._multipliers = self.fill_in(initial_guess)
+            self._multipliers = self.fill_in(initial_guess).astype(float)
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
         tol = tol or 1/np.sqrt(self.model.sampleSize)
-- 
2.43.0


From 95e582332657ee0ae4779e3212bb139983a33e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 70/81] fix: MCH replaced tolerances of zero by the default
 ones

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 675f5a4..2a8d952 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -874,8 +874,8 @@ class MCH(Solver):
             self._multipliers = np.array(initial_guess, dtype=float)
         else:
             self._multipliers = np.zeros((len(constraints)))
-        tol = tol or 1/np.sqrt(self.model.sampleSize)
-        tolNorm = tolNorm or np.sqrt( 1/self.model.sampleSize )*len(self._multipliers)
+        tol = 1/np.sqrt(self.model.sampleSize) if tol is None else tol
+        tolNorm = np.sqrt( 1/self.model.sampleSize )*len(self._multipliers) if tolNorm is None else tolNorm
         
         # Redefine function for automatically adjusting learn_params_kwargs so that it returns the
         # MCH iterator settings and the sample size if it doesn't already.
@@ -1205,8 +1205,8 @@ class SparseMCH(Solver):
             self._multipliers = self.fill_in(initial_guess).astype(float)
         else:
             self._multipliers = self.fill_in(np.zeros(constraints.size))
-        tol = tol or 1/np.sqrt(self.model.sampleSize)
-        tolNorm = tolNorm or np.sqrt(1/self.model.sampleSize) * len(self._multipliers)
+        tol = 1/np.sqrt(self.model.sampleSize) if tol is None else tol
+        tolNorm = np.sqrt(1/self.model.sampleSize) * len(self._multipliers) if tolNorm is None else tolNorm
         
         # Redefine function for automatically adjusting learn_params_kwargs so that it
         # returns the MCH iterator settings and the sample size if it doesn't already.
-- 
2.43.0


From b498a40511a3170ae0fce615c10384adee5ea916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 71/81] fix: pseudolikelihood overflowed for large parameters

---
 coniii/solvers.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 2a8d952..b4597e5 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -1775,8 +1775,8 @@ class Pseudo(Solver):
                 guess[multipliersrix] = params
                 multipliers = self.get_multipliers_r(r, guess)[0]
                 E = -obs[r].dot(multipliers)
-                loglikelihood = -np.log( 1+np.exp(2*E) ).sum()
-                dloglikelihood = ( -(1/(1+np.exp(2*E)) * np.exp(2*E))[:,None] * 2*obs[r] ).sum(0)
+                loglikelihood = -np.logaddexp(0, 2*E).sum()
+                dloglikelihood = ( -(1/(1+np.exp(-2*E)))[:,None] * 2*obs[r] ).sum(0)
                 return -loglikelihood, dloglikelihood
         
             soln.append(minimize(f, initial_guessAsMat[r], jac=True, **solver_kwargs))
@@ -1839,9 +1839,8 @@ class Pseudo(Solver):
             for r in range(self.n):
                 multipliers, multipliersrix = self.get_multipliers_r(r, params)
                 E = -obs[r].dot(multipliers)
-                loglikelihood += -np.log( 1+np.exp(2*E) ).sum() 
-                dloglikelihood[multipliersrix] += ( -(1/(1+np.exp(2*E)) *
-                                                    np.exp(2*E))[:,None] *
+                loglikelihood += -np.logaddexp(0, 2*E).sum() 
+                dloglikelihood[multipliersrix] += ( -(1/(1+np.exp(-2*E)))[:,None] *
                                                     2*obs[r] ).sum(0)
             return -loglikelihood, dloglikelihood
         
@@ -1921,7 +1920,8 @@ class Pseudo(Solver):
                 loglikelihood += loglikelihoodPerSample.sum()
 
                 # calculate log likelihood gradient (take a derivative wrt to each parameter)
-                den = -np.exp(-loglikelihoodPerSample)
+                shift = Edelta.min(1)  # largest term is set to one to avoid overflow
+                den = -np.exp(shift - loglikelihoodPerSample)
 
                 # iterate over each field
                 # note that we are taking the derivative of the loglikelihood divided by
@@ -1940,7 +1940,7 @@ class Pseudo(Solver):
                         notCurrentStateAndNoField = (~currentStateAndSameField) & (otherobsstate[r][:,ix]!=hix)
                         sgn[notCurrentStateAndNoField] = 0
 
-                        num += sgn * np.exp(-Edelta[:,ix])
+                        num += sgn * np.exp(shift - Edelta[:,ix])
                     dloglikelihood[multipliersrix[hix]] += (num/den).sum()
             
                 # derivative wrt to each coupling
@@ -1957,7 +1957,7 @@ class Pseudo(Solver):
                         sameStateAsR = self.sample[:,r]==self.sample[:,jix]
                         sgn[sameStateAsR] = -1
 
-                        num += sgn * np.exp(-Edelta[:,ix])
+                        num += sgn * np.exp(shift - Edelta[:,ix])
                     dloglikelihood[multipliersrix[i+self.k]] += (num/den).sum()
             return -loglikelihood + cost_fcn(params), -dloglikelihood + cost_fcn_jac(params)
         
@@ -2049,8 +2049,7 @@ class Pseudo(Solver):
         localFields = np.dot(Jr,samplesRhat.T) # (# X)x(1)
         energies = sigmaRtilde * localFields # (# X)x(1)
         
-        invPs = 1. + np.exp( energies )
-        logLs = np.log( invPs )
+        logLs = np.logaddexp( 0, energies )
 
         return -logLs.sum()
 
@@ -2099,7 +2098,7 @@ class Pseudo(Solver):
         if pairCoocRhat is None:
             pairCoocRhat = self.pair_cooc_mat(samplesRhat)
         
-        energyMults = np.exp(-energies)/( (1.+np.exp(-energies))**2 ) # (# X)x(1)
+        energyMults = np.exp(-np.abs(energies))/( (1.+np.exp(-np.abs(energies)))**2 ) # (# X)x(1)
         #filteredSigmaRtildeSq = filterVec * (2.*X[:,r] + 1.) # (# X)x(1)
         return np.dot( energyMults, pairCoocRhat )
 
-- 
2.43.0


From 4b18789fc7c967448924bd4a5d9b5234558d6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 72/81] fix: unique_rows() took positive and negative zeros for
 different

---
 coniii/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coniii/utils.py b/coniii/utils.py
index c1ad60b..3d93103 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -90,6 +90,8 @@ def unique_rows(mat, return_inverse=False):
         row indices of given mat that will give unique array
     """
 
+    if np.issubdtype(mat.dtype, np.inexact):
+        mat = mat + mat.dtype.type(0)  # negative zeros are the same as zeros, but not their bytes
     b = np.ascontiguousarray(mat).view(np.dtype((np.void, mat.dtype.itemsize * mat.shape[1])))
     if not return_inverse:
         _, idx = np.unique(b, return_index=True)
-- 
2.43.0


From 22bb17277bdc783d7c0cdf9f572588e3a5e21b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 73/81] fix: fill_in() truncated the fill value if the
 parameters are integers

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b4597e5..a823d50 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -139,7 +139,7 @@ class Solver():
             With missing entries filled in.
         """
 
-        return np.insert(x, self.insertionIx, fill_value)
+        return np.insert(np.asarray(x, dtype=np.result_type(x, fill_value)), self.insertionIx, fill_value)
 
     def logp(self, sample=None, run_checks=True):
         """Estimate log likelihood of given set of states using self.model.sample.
-- 
2.43.0


From 518337fac78285d531eab9a109ed67477fcad354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 74/81] fix: analytic entropy and coocExpectations are not a
 number for large parameters

---
 coniii/mean_field_ising.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 5db428d..410cd03 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -401,9 +401,12 @@ def analyticEntropy(J):
     """
     In nats.
     """
-    Z = unsummedZ(J)
-    p = Z / scipy.sum(Z)
-    return - scipy.sum( p * scipy.log(p) )
+    # subtracting the largest term avoids overflow, and the logarithm of the
+    # probabilities is finite also where they underflow
+    logZ = unsummedLogZ(J)
+    logZ = logZ - logZ.max()
+    logp = logZ - scipy.log( scipy.sum( scipy.exp(logZ) ) )
+    return - scipy.sum( scipy.exp(logp) * logp )
 
 # 7.20.2017 moved from inverseIsing.py
 # 2.7.2014
@@ -551,7 +554,9 @@ def coocExpectations(J,hext=0,zeroBelowDiag=True,minSize=0):
     ell = len(J)
     fp = scipy.array( fightPossibilities(ell,minSize) )
     coocp = scipy.array([ scipy.outer(f,f) for f in fp ])
-    Z = unsummedZ(J,hext,minSize)
+    # subtracting the largest term avoids overflow
+    logZ = unsummedLogZ(J,hext,minSize)
+    Z = scipy.exp( logZ - logZ.max() )
     coocSym = dot(coocp.T,Z)/sum(Z)
     if zeroBelowDiag:
         coocTri = coocSym * scipy.tri(ell).T
-- 
2.43.0


From 5b4da65817b0780288dd78e934f3df532e1d450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 75/81] fix: conditionalLogLikelihood() and
 conditionalHessian() overflowed for large parameters

---
 coniii/pseudo_inverse_ising.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coniii/pseudo_inverse_ising.py b/coniii/pseudo_inverse_ising.py
index ed6bfa9..2b10b42 100755
--- a/coniii/pseudo_inverse_ising.py
+++ b/coniii/pseudo_inverse_ising.py
@@ -106,8 +106,8 @@ def conditionalLogLikelihood(r,samples,Jr,minSize=0):
     # vector with zeros on samples affected by minSize
     filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )
 
-    invPs = 1. + exp( energies )
-    logLs = - filterVec * log( invPs )
+    # log( 1 + exp(energies) ) without overflow
+    logLs = - filterVec * scipy.logaddexp( 0., energies )
 
     return scipy.sum( logLs )
 
@@ -160,7 +160,9 @@ def conditionalHessian(r,samples,Jr,minSize=0,pairCoocRhat=None):
     # vector with zeros on samples affected by minSize
     filterVec = 1 - samples[:,r] * ( sum(samples,axis=1) <= minSize )
 
-    energyMults = exp(-energies)/( (1.+exp(-energies))**2 ) # (# samples)x(1)
+    # symmetric in the sign of the energies, such that exp does not overflow
+    expNegEnergies = exp(-abs(energies))
+    energyMults = expNegEnergies/( (1.+expNegEnergies)**2 ) # (# samples)x(1)
     #filteredSigmaRtildeSq = filterVec * (2.*samples[:,r] + 1.) # (# samples)x(1)
     filteredSigmaRtildeSq = filterVec # (sigmaRtildeSq = 1)
 
-- 
2.43.0


From cb1a2d5ec2e754893feec7cdb3ba11a414131032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 76/81] fix: temperatures of replicas that never exchange
 coincided after optimisation

---
 coniii/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index e629ccb..ae0a01b 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -818,6 +818,9 @@ class ParallelTempering(Sampler):
         assert (len(acceptance_ratio)+1)==len(beta)
         assert (acceptance_ratio<=1).all()
         
+        # pairs that (almost) never exchange would otherwise collapse to one temperature
+        acceptance_ratio = np.maximum(acceptance_ratio, 1e-3)
+
         newBeta = beta.copy()
         avg = acceptance_ratio.mean()
         for i in range(len(beta)-1, 0, -1):
-- 
2.43.0


From eb5bdebb1ba5b812bc6dae2756c94ede40ddb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:01 +0000
Subject: [PATCH 77/81] fix: optimisation of temperatures could make them
 negative

---
 coniii/samplers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index ae0a01b..631a925 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -825,6 +825,10 @@ class ParallelTempering(Sampler):
         avg = acceptance_ratio.mean()
         for i in range(len(beta)-1, 0, -1):
             newBeta[i-1] = newBeta[i] - (beta[i]-beta[i-1]) * acceptance_ratio[i-1]/avg
+
+        if newBeta[0]<=0:
+            # temperatures must remain positive, keep the hottest one where it was
+            newBeta = beta[-1] - (beta[-1]-newBeta) * (beta[-1]-beta[0])/(beta[-1]-newBeta[0])
         return newBeta
 
     def optimize_beta(self,
-- 
2.43.0


From 3c5705e9719e9f8f220e4c4f6c7b06df77303750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:29 +0000
Subject: [PATCH 78/81] fix: coarse_grain() of lattices overflowed for large
 blocks and failed for lattices of 64-bit integers

---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index ca26495..7d2d254 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -127,7 +127,7 @@ def coarse_grain(lattice, factor):
     renormalized_lattice : ndarray
     """
 
-    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
+    reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int64)
     reL=reLattice.shape
 
     for i in range(factor):
-- 
2.43.0


From c95cb38de006c83b6f5132387d7408bc412d53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 79/81] fix: coarse_grain_with_func() truncated coarse
 variables to the type of the data

---
 coniii/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index 3d93103..a4efe98 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1359,15 +1359,15 @@ def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
             newClusters.append((ix[0],))
         
         # coarse-grain data
-        X_ = np.zeros((coarseX.shape[0],int(np.ceil(n/2))), dtype=X.dtype)
+        X_ = []  # not necessarily of the type of X
         originalIx_ = []
         for i,ix in enumerate(newClusters):
-            X_[:,i] = coarse_func(coarseX[:,ix])
+            X_.append( coarse_func(coarseX[:,ix]) )
             originalIx_.append([])
             for ix_ in ix:
                 originalIx_[-1] += originalIx[ix_]
         originalIx = originalIx_
-        coarseX = X_
+        coarseX = np.stack(X_, axis=1)
     binsix = originalIx
     
     return coarseX, binsix
-- 
2.43.0


From 0ff75b298e31ea46b281ad97b950152c47c61526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 80/81] fix: coocurrences of small integer or boolean samples
 overflowed

---
 coniii/mean_field_ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/mean_field_ising.py b/coniii/mean_field_ising.py
index 410cd03..e65c605 100755
--- a/coniii/mean_field_ising.py
+++ b/coniii/mean_field_ising.py
@@ -459,7 +459,7 @@ def cooccurrence_matrix(samples, keep_diag=True):
     ndarray
     """
 
-    mat = samples.T.dot(samples)
+    mat = samples.T.astype(float).dot(samples)
     mat = mat*(1 - np.tri(len(mat), k=keep_diag*-1))  # only modify entries above diagonal
     mat /= len(samples)  # mat /= np.sum(mat)
     return mat
-- 
2.43.0


From 1faa492350a1c0910ccf21a46c483b77a3a6af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 81/81] fix: calc_de() wrapped around for unsigned states and
 failed for boolean ones

---
 coniii/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/utils.py b/coniii/utils.py
index a4efe98..a31cfdd 100755
--- a/coniii/utils.py
+++ b/coniii/utils.py
@@ -1298,11 +1298,11 @@ def calc_de(s, i):
     
     assert s.ndim==2
     if i<s.shape[1]:
-        return -s[:,i]
+        return -s[:,i].astype(float)
     else:
         i -= s.shape[1]
         i, j = ind_to_sub(s.shape[1], i)
-        return -s[:,i] * s[:,j]
+        return -s[:,i].astype(float) * s[:,j]
 
 def coarse_grain_with_func(X, n_times, sim_func, coarse_func):
     """Iteratively coarse-grain X by combining pairs with the highest similarity. Both the
-- 
2.43.0

