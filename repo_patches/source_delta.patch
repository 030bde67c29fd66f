From 399c1756b8951a3e9743ebd8849cb6815b477ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 01/51] fix: dense Hamiltonian of a purely diagonal operator
 list

todense() popped from the empty list of non-diagonal operators, so single-level
systems (and total-number symmetry without exchange) could not be solved.
---
 edpyt/matvec_product.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index 7a64f38..a964c59 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -86,7 +86,10 @@ def todense(*operators):
             diag_op.append(op)
         else:
             ops.append(op)
-    out = ops.pop().todense()
+    if ops:
+        out = ops.pop().todense()
+    else: # Diagonal operators only.
+        out = diag_op.pop().todense()
     n = out.shape[0]
     for op in ops:
         out += op.todense()
-- 
2.43.0


From d3a6d9e05578cf4f38aa5ca8d02b916e7d0bfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 02/51] fix: pair hopping without spin exchange in (up,down)
 sectors

The number of levels was read from the exchange matrix, which is None when only
pair hopping is given.
---
 edpyt/ham_non_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index a8d67eb..4fb87f3 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -68,7 +68,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
     
     dup = states_up.size
     dwn = states_dw.size
-    n = Jx.shape[0]
+    n = Jx.shape[0] if Jx is not None else Jp.shape[0]
     
     Nup = count_bits(states_up[0],n)
     Ndw = count_bits(states_dw[0],n)
-- 
2.43.0


From cc726155a8b8469bf77eb5f5abd6a2f740156cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 03/51] fix: interaction given without its density-density part

A dictionary holding only exchange couplings crashed on the missing 'U' entry.
---
 edpyt/build_mb_ham.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index daba0ec..a2bde82 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -49,6 +49,8 @@ def build_mb_ham(H, V, sct, comm=None):
         U = V.get('U',None)
         Jx = V.get('Jx', None)
         Jp = V.get('Jp', None)
+        if U is None: # Exchange interactions only.
+            U = np.zeros((n,n))
     # dup = states_up.size
     # dwn = states_dw.size
     # if comm is not None:
-- 
2.43.0


From c572867c820ed1fa3fe71670f9e7faa9bc460527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 04/51] fix: building a Hamiltonian leaves the flags of the
 input matrix alone

A read-only one-body matrix crashed (two-dimensional) or was silently made
writeable (three-dimensional), and an error in between left it read-only.
---
 edpyt/build_mb_ham.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/build_mb_ham.py b/edpyt/build_mb_ham.py
index a2bde82..133d77d 100644
--- a/edpyt/build_mb_ham.py
+++ b/edpyt/build_mb_ham.py
@@ -38,7 +38,8 @@ def build_mb_ham(H, V, sct, comm=None):
 
     """
     n = H.shape[-1]
-    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H
+    # Read-only view, the flags of the input array must not change.
+    H = np.broadcast_to(H, (2,n,n)) if H.ndim==2 else H.view()
     H.flags.writeable = False
 
     if isinstance(V, np.ndarray):
@@ -73,8 +74,6 @@ def build_mb_ham(H, V, sct, comm=None):
     if (Jx is not None) or (Jp is not None):
         operators.append(build_ham_non_local(Jx, Jp, sct, operators[0]))
 
-    H.flags.writeable = True
-
     return operators
 
 
-- 
2.43.0


From 85fed27d5f426d2cb045e9f9cebb311ed1dd6a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 05/51] fix: sign of the spin-flip part of the exchange in
 (up,down) sectors

c+_i,up c+_j,dw c_i,dw c_j,up equals +[c+_i,up c_j,up][c+_j,dw c_i,dw]. With the
opposite sign the triplet was not degenerate across S_z as soon as there was
hopping, and the result differed from the total-number symmetry.
---
 edpyt/ham_non_local.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 4fb87f3..39d7dbe 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -113,6 +113,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                 #    s=s'  :: \sum_ij \sum_s - 0.5 * Jx_ij [c^+_is c_is] [c^+_js c_js]
                 #    s!=s' :: \sum_ij - 0.5 * Jx_ij [S+_i S-_j + S+_j + S-_i]
                 #          :: \sum_ij - Jx_ij [S+_i S-_j]
+                #          :: \sum_ij + Jx_ij [c^+_i,up c_j,up] [c^+_j,dw c_i,dw]
                 tmp = 0.
                 for i in range(n):
                     if (not nup[i]) & ndw[i]:
@@ -124,7 +125,7 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
                                 sgn_dw, fdw = cdgc(sdw, j, i)
                                 jdw = binsearch(states_dw, fdw)
                                 Jndx = jdw * dup + jup
-                                sp_mat.data[count] = - sgn_up * sgn_dw * Jx.data[p]
+                                sp_mat.data[count] = sgn_up * sgn_dw * Jx.data[p]
                                 sp_mat.indices[count] = Jndx                
                                 count += 1
                     for p in range(Jx.indptr[i], Jx.indptr[i+1]):
-- 
2.43.0


From 5b8b7c8e1386a462ecab7e129bb0ebcfd3fb1b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 06/51] fix: spin-dependent levels with total-number symmetry

The down-spin level energies were used for both spins.
---
 edpyt/ham_local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/ham_local.py b/edpyt/ham_local.py
index 2e9bbfc..e22f4a7 100644
--- a/edpyt/ham_local.py
+++ b/edpyt/ham_local.py
@@ -107,7 +107,7 @@ def _N_build_ham_local(H, V, states, vec_diag, z, hfmode=False, mu=0.):
         for i in range(n):
             ndw[i] = np.float64((sdw>>i)&uone) 
             nup[i] = np.float64((sup>>i)&uone)
-            res += edwdiag[i]*(ndw[i]+nup[i])
+            res += eupdiag[i]*nup[i] + edwdiag[i]*ndw[i]
         # Coulomb contribution
         if hfmode:
             for i in range(n):
-- 
2.43.0


From ec043b3a7840fff0199bd070f9edb3a91c38b4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 07/51] fix: Hamiltonian product into a supplied output vector

The truth value of the array was taken, which numpy refuses.
---
 edpyt/matvec_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/matvec_product.py b/edpyt/matvec_product.py
index a964c59..1a1fdd4 100644
--- a/edpyt/matvec_product.py
+++ b/edpyt/matvec_product.py
@@ -35,7 +35,7 @@ def _matvec_operator(*operators):
 
     """
     def matvec(vec, res=None):
-        out = res or np.empty_like(vec)
+        out = np.empty_like(vec) if res is None else res
         for op in operators:
             op.matvec(vec, out=out)
         return out
-- 
2.43.0


From d792633a96571ea9dc2c20961c75f8996af509ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 08/51] fix: partial spectrum of a one-dimensional Krylov space

A start vector that is an eigenvector gives a single coefficient, for which the
LAPACK routine refuses the empty off-diagonal.
---
 edpyt/tridiag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index 1d0573d..f691ba0 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -11,6 +11,8 @@ egs_tridiag = lambda a, b: _solve_partial(a,b,eigvals_only=True)[0][0] #stebz(a,
 gs_tridiag = lambda a, b: _solve_partial(a,b)
 
 def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
+    if a.size==1: # No off-diagonal elements.
+        return a.copy(), None if eigvals_only else np.ones((1,1))
     il = select_range[0] + 1
     iu = select_range[1] + 1
     order = 'E' if eigvals_only else 'B'
-- 
2.43.0


From cfd7874adc8a2193131f9366ae954b476adcbba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 09/51] fix: order of a partial spectrum when the tridiagonal
 matrix splits

The eigenpairs came grouped by block instead of ascending.
---
 edpyt/tridiag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/tridiag.py b/edpyt/tridiag.py
index f691ba0..0900f9e 100644
--- a/edpyt/tridiag.py
+++ b/edpyt/tridiag.py
@@ -21,7 +21,8 @@ def _solve_partial(a, b, select_range=(0,0), eigvals_only=False):
     if eigvals_only:
         return w, None
     v, info = stein(a,b,w,iblock,isplit)
-    return w, v[:, :m]
+    idx = np.argsort(w) # Eigenvalues are grouped by split-off blocks.
+    return w[idx], v[:, idx]
 
 
 def _solve_full(a, b, eigvals_only=False):
-- 
2.43.0


From 2f4d3ba1982a3d14fe26cfd6439d35615af86c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:30 +0000
Subject: [PATCH 10/51] fix: Ritz values without vectors

With eigvals_only the tridiagonal solver returns the eigenvalues alone, which
were unpacked as (eigenvalues, eigenvectors).
---
 edpyt/lanczos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 4a1d21b..3c32e9d 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -167,10 +167,10 @@ def sl_solve(matvec, a, b, v0=None, select=0, select_range=(0,0), eigvals_only=F
 
     """
     assert select in [0,2], f"Invalid select type {select}."
-    w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     if eigvals_only:
-        return w
+        return eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
     else:
+        w, U = eigh_tridiagonal(a, b[1:], select, select_range, eigvals_only)
         assert v0 is not None, f"Starting lanczos vector must be provided for eigenvectors."
     lanc_step = sl_step(matvec, comm)
     v = v0
-- 
2.43.0


From 1966cb2c276b69ca81d3b7395f18a5ea0614db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:53 +0000
Subject: [PATCH 11/51] fix: band Lanczos no longer writes through negative
 indices

---
 edpyt/lanczos.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/lanczos.py b/edpyt/lanczos.py
index 3c32e9d..7f61e9a 100644
--- a/edpyt/lanczos.py
+++ b/edpyt/lanczos.py
@@ -251,12 +251,15 @@ def build_bd_tridiag(matvec, phi0, maxn=300, delta=1e-15, tol=1e-10, ND=10):
             if len(vl)>Lc: # Eliminate v[n-Lc] from list of previous Lanc. vectors.
                 vl.pop(0)
             continue # Go to b = norm(v[0]).
-        T[n,n-Lc] = b # v become new Lanc. vector.
+        if n>=Lc:
+            T[n,n-Lc] = b # v become new Lanc. vector.
         v /= b
         vk.pop(0) # Eliminate v from candidates. k->k+1
         for k0, k in enumerate(range(n+1,n+Lc)): # Orthogonalize next candidates against v.
-            T[n,k-Lc] = v.dot(vk[k0])
-            vk[k0] -= T[n,k-Lc]*v
+            proj = v.dot(vk[k0])
+            vk[k0] -= proj*v
+            if k>=Lc:
+                T[n,k-Lc] = proj
         w = matvec(v) # New candidate vector.
         for k0, k in enumerate(range(max(0,n-Lc),n)): # Orthogonalize against previous (n-Lc) Lanc. vectors.
             T[k,n] = np.conj(T[n,k])
-- 
2.43.0


From 302a596bacdf8fdec02a6d30de28c4e79f0b3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 12/51] fix: exchange interaction of a single level

---
 edpyt/ham_non_local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edpyt/ham_non_local.py b/edpyt/ham_non_local.py
index 39d7dbe..7aabf41 100644
--- a/edpyt/ham_non_local.py
+++ b/edpyt/ham_non_local.py
@@ -89,7 +89,9 @@ def _build_ham_non_local(Jx, Jp, states_up, states_dw, vec_diag):
             warn(warn_offdiag.format(interaction='pair-hopping'))
         Jp = nnz_offdiag_csrmat(Jp, nnz_p)
     
-    nnz = (nnz_x + nnz_p) * int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
+    nnz = 0 # No pair of levels to couple.
+    if n>1:
+        nnz = (nnz_x + nnz_p) * int(binom(n-2, Nup-1)) * int(binom(n-2, Ndw-1))
         
     sp_mat = empty_csrmat(nnz, (dwn*dup, dwn*dup))
     
-- 
2.43.0


From 0d12ae7dd3b7a2ff5e3560a296f95a7216686e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 13/51] fix: occupations of sliced eigenvectors, leave the
 caller's array in shape

---
 edpyt/observs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edpyt/observs.py b/edpyt/observs.py
index 3ff3cef..5e405ab 100644
--- a/edpyt/observs.py
+++ b/edpyt/observs.py
@@ -78,8 +78,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
     occps = np.zeros(nev) # internal
     
     if evecs.flags.f_contiguous:
-        evecs = evecs.T
-        evecs.shape = (nev, dwn, dup)
+        evecs = evecs.T.reshape(nev, dwn, dup)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ij,ji->i',evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ij,ji->i',evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
@@ -87,7 +86,7 @@ def _get_evecs_occupation(evecs, states_up, states_dw, n, coeffs=None):
             contract_up = lambda iup: np.einsum('i,ij,ji->i',coeffs,evecs[:,:,iup],evecs[:,:,iup].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('i,ij,ji->i',coeffs,evecs[:,idw,:],evecs[:,idw,:].T,out=occps,optimize=True)
     else:
-        evecs.shape = (dwn, dup, nev)
+        evecs = evecs.reshape(dwn, dup, nev)
         if coeffs is None:
             contract_up = lambda iup: np.einsum('ji,ij->i',evecs[:,iup,:],evecs[:,iup,:].T,out=occps,optimize=True)
             contract_dw = lambda idw: np.einsum('ji,ij->i',evecs[idw,:,:],evecs[idw,:,:].T,out=occps,optimize=True)
-- 
2.43.0


From a748b0e6c4c53e81678c06acac55fdf4edc52959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 14/51] fix: exact Green function of the down spin

---
 edpyt/gf_exact.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/edpyt/gf_exact.py b/edpyt/gf_exact.py
index 94ce52c..18e4a0d 100644
--- a/edpyt/gf_exact.py
+++ b/edpyt/gf_exact.py
@@ -13,6 +13,8 @@ from edpyt.operators import (
     c, cdg, check_empty, check_full
 )
 
+from edpyt.sector import OutOfHilbertError, get_cdg_sector
+
 
 # def Gf(q, l):
 #     """Green's function kernel wrapper.
@@ -110,11 +112,11 @@ def build_gf_exact(H, V, espace, beta, egs=0., pos=0, ispin=0):
     # /____ NN'
     for nupI, ndwI in espace.keys():
         sctI = espace[(nupI,ndwI)]
-        # N+1 (one more up spin)
-        nupJ = nupI+1
-        ndwJ = ndwI
-        # Cannot have more spin than spin states
-        if nupJ > n: continue
+        # N+1 (one more up or down spin)
+        try:
+            nupJ, ndwJ = get_cdg_sector(n, nupI, ndwI, ispin)
+        except OutOfHilbertError: # Cannot have more spin than spin states
+            continue
         # Arrival sector
         sctJ = espace[(nupJ,ndwJ)]
         #  ____                          ____ 
-- 
2.43.0


From f798b1e723e114fa52088d2994c87c3ef9ce0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 15/51] fix: Krylov Green function no longer overwrites
 screened sectors

---
 edpyt/gf_lanczos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edpyt/gf_lanczos.py b/edpyt/gf_lanczos.py
index f940931..0aa8b6b 100644
--- a/edpyt/gf_lanczos.py
+++ b/edpyt/gf_lanczos.py
@@ -181,6 +181,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # All final states, leave (screened) espace alone.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, cdg, sctI, sctJ)
@@ -216,6 +218,8 @@ def build_gf_lanczos(H, V, espace, beta, egs=0., pos=0, repr='cf', ispin=0, sepa
             sctJ = espace.get((nupJ, ndwJ), None) or build_empty_sector(n, nupJ, ndwJ)
             # solve with LAPACK
             if (sctJ.d <= 10):
+                # All final states, leave (screened) espace alone.
+                sctJ = build_empty_sector(n, nupJ, ndwJ)
                 sctJ.eigvals, sctJ.eigvecs = solve_sector(H, V, sctJ)
                 # <J|I>
                 bJ = project_exact(pos, n, c, sctI, sctJ)
-- 
2.43.0


From 277678c9622f921f60457170c41f16deede3647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 16/51] fix: off-diagonal Green function of states annihilated
 by both operators

---
 edpyt/gf2_lanczos.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index fdf5d64..5ca46ed 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -89,7 +89,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfe.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL])
@@ -110,7 +113,10 @@ def build_gf_offdiag(H, V, espace, beta, ipos, jpos, ispin=0, egs=0., repr='cf',
                 *build_mb_ham(H, V, sctJ)
             )
             for iL in range(sctI.eigvals.size):
-                aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                try:
+                    aJ, bJ = build_sl_tridiag(matvec, v0[iL])
+                except ZeroNormInitialVector:
+                    continue
                 gfh.add(
                     gf_kernel,
                     *build_gf_coeff(aJ, bJ, sctI.eigvals[iL], exponents[iL], sign=-1)
-- 
2.43.0


From f57d551cc4b6c86c0c14ae32ea6aa6a87fc3c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 17/51] fix: indexing the lower triangle of the Green function
 matrix

---
 edpyt/gf2_lanczos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/gf2_lanczos.py b/edpyt/gf2_lanczos.py
index 5ca46ed..b9903e8 100644
--- a/edpyt/gf2_lanczos.py
+++ b/edpyt/gf2_lanczos.py
@@ -30,6 +30,8 @@ class _Gf2():
         i,j = ij
         if i==j:
             return self.gf[i,j]
+        if i>j: # Symmetric, only upper triangle is stored.
+            i,j = j,i
         return lambda e, eta: 0.5*(self.gf[i,j](e,eta)
                                    -self.gf[i,i](e,eta)
                                    -self.gf[j,j](e,eta))
-- 
2.43.0


From 6190b08ee3001e272c9f4d8c06d5d805c350d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 18/51] fix: cotunnelling integrals at zero bias and coinciding
 poles

---
 edpyt/integrals.py | 57 +++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 1a3c869..5852b4d 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -35,41 +35,26 @@ nB = lambda x: 1./(np.exp(x)-1)
 
 def I1(C, eps, mu, beta):
     x = (mu[1]-mu[0]) * beta
-    if abs(x) < 1e-16:
-        return 0. #np.sign(x)
-    if abs(x) < 1e-15:
-        return C**2 * beta/(2*np.pi) * np.imag(
-            Taylor(1,x,mu[1],eps,beta)
-          - Taylor(1,x,mu[0],eps,beta)
-        )        
+    if abs(x) < 1e-4:
+        # Zero bias: nB(x) -> 1/x - 1/2 + x/12, Psi(mu[1])-Psi(mu[0]) -> (mu[1]-mu[0]) dPsi/dmu
+        return C**2 * beta/(2*np.pi) * (1 - x/2 + x**2/12) / (2*np.pi) * np.real(
+            Psi(2,0.5*(mu[0]+mu[1]),eps,beta)
+        )
     return C**2 * beta/(2*np.pi) * nB(x) * np.imag(
             Psi(1,mu[1],eps,beta)
           - Psi(1,mu[0],eps,beta)
         )
-    # f = C**2 * beta/(2*np.pi) * np.imag(
-    #     Psi(1,mu[1],eps,beta) 
-    #   - Psi(1,mu[0],eps,beta)
-    # )
-    # with np.errstate(divide='raise',over='ignore'): # 1/0.
-    #     try:
-    #         w = nB(mu[1]-mu[0],beta)
-    #     except FloatingPointError as e: # nB -> oo
-    #         if abs(f)<1e-13: # oo.*0. -> 0.
-    #             return 1#0.
-    #         else:
-    #             raise e
-    # return w * f
+
 
 def I2(A, B, epsA, epsB, mu, beta):
+    if abs(epsA-epsB) * beta < 1e-3: # Coinciding poles.
+        return A * B * I1(1., 0.5*(epsA+epsB), mu, beta)
     x = (mu[1]-mu[0])*beta
-    if abs(x) < 1e-16:
-        return 0. # -1.
-    if abs(x) < 1e-15:
-        return A * B / (epsA-epsB) * np.real(
-              Taylor(0,epsA,mu[1],beta) 
-            - Taylor(0,epsA,mu[0],beta) 
-            - Taylor(0,epsB,mu[1],beta)
-            + Taylor(0,epsB,mu[0],beta)
+    if abs(x) < 1e-4: # Zero bias.
+        m = 0.5*(mu[0]+mu[1])
+        return A * B / (epsA-epsB) * (1 - x/2 + x**2/12) / (2*np.pi) * np.imag(
+              Psi(1,epsA,m,beta)
+            - Psi(1,epsB,m,beta)
         )
     return A * B * nB(x) / (epsA-epsB) * np.real(
           Psi(0,epsA,mu[1],beta) 
@@ -77,22 +62,6 @@ def I2(A, B, epsA, epsB, mu, beta):
         - Psi(0,epsB,mu[1],beta)
         + Psi(0,epsB,mu[0],beta)
     )
-    # f = A*B * np.real(
-    #     Psi(0,epsA,mu[1],beta) 
-    #   - Psi(0,epsA,mu[0],beta) 
-    #   - Psi(0,epsB,mu[1],beta)
-    #   + Psi(0,epsB,mu[0],beta)
-    # )
-    # with np.errstate(divide='raise',over='ignore'): # 1./0.
-    #     try:
-    #         w = nB(mu[1]-mu[0],beta)
-    #         dAB_inv = 1. / (epsA - epsB)
-    #     except FloatingPointError as e: # nB -> oo or 1/dE -> oo
-    #         if abs(f)<1e-13: # oo*0. -> 0.
-    #             return 1#0.
-    #         else:
-    #             raise e
-    # return w * dAB_inv * f
 
 #
 
-- 
2.43.0


From b707ff84fecc7fe452badfb8b6c89243de60d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:26 +0000
Subject: [PATCH 19/51] fix: interference term of the cotunnelling rate enters
 twice

---
 edpyt/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index 5852b4d..de0a843 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -71,7 +71,7 @@ Gamma1 = I1
 def Gamma2(A, B, epsA, epsB, mu, beta):
     return I1(A,epsA,mu,beta) \
          + I1(B,epsB,mu,beta) \
-         + I2(A,B,epsA,epsB,mu,beta)
+         + 2 * I2(A,B,epsA,epsB,mu,beta) # |a+b|^2
 
 
 def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
-- 
2.43.0


From d864be28b93db13b5b78d4bab8a007e83fe35ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 20/51] fix: thermal factor of the approximate rates at and
 near zero bias

---
 edpyt/cotnl.py       | 6 +++---
 edpyt/cotunneling.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 3ab8eb4..b83f92d 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -209,11 +209,11 @@ nF.__doc__ = "Fermi function."
 
 def G(beta, z):
     """Helper function for approximate solution."""
-    if (beta*abs(z))<1e-18:
-        return 1.
+    if z==0.:
+        return 1./beta
     if (beta*z)>1e3:
         return 0.
-    return z/(np.exp(beta*z)-1)
+    return z/np.expm1(beta*z)
 
 # from numba import vectorize, guvectorize
 
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 9d038f0..3bfd5f1 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -229,11 +229,11 @@ class _Sigma:
     @staticmethod
     def G(beta, z):
         """Helper function for approximate solution."""
-        if (beta*abs(z))<1e-18:
-            return 1.
+        if z==0.:
+            return 1./beta
         if (beta*z)>1e3:
             return 0.
-        return z/(np.exp(beta*z)-1)
+        return z/np.expm1(beta*z)
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-- 
2.43.0


From 15c71b91a310990921875392f86840d4c0dd8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 21/51] fix: cotunnelling amplitude at several energies

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 3bfd5f1..3b4fcde 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -212,7 +212,7 @@ class Gf2:
     def __call__(self, z, aF, aI):
         z = np.atleast_1d(z)
         res = np.einsum('j,j,kj->k',aF.dot(self.vF.T),aI.dot(self.vI.T),
-                        np.reciprocal(z-self.E[None,:]))
+                        np.reciprocal(z[:,None]-self.E[None,:]))
         return res
 
 
-- 
2.43.0


From 4235564ca6d98debfd1bf8e4d432c9f0d70aea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 22/51] fix: electron energy denominators of inelastic
 cotunnelling

---
 edpyt/cotunneling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 3b4fcde..26f6858 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -71,10 +71,10 @@ def project_add(ispin_i, ispin_j, n, nupI, ndwI, espace):
     for i in range(n):
         v_FJ[...,i] = sgnJ * proj_ispin_i(i, n, c, sctJ, sctF)
     dE = sctF.eigvals[:,None]-sctI.eigvals[None,:]
-    E = sctJ.eigvals[None,:]-sctI.eigvals[:,None]
+    E = sctJ.eigvals[None,:]-sctF.eigvals[:,None]
     gf2elist = []
     for f,i in np.ndindex(v_FJ.shape[0],v_JI.shape[1]):
-        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[i],dE[f,i],(nupJ,ndwJ)))
+        gf2elist.append(Gf2((nupF,ndwF,f),(nupI,ndwI,i),v_FJ[f],v_JI[:,i].copy(),E[f],dE[f,i],(nupJ,ndwJ)))
     return gf2elist
 
 
-- 
2.43.0


From 0189b6743e06c1f01929c88e2f7c46d25fe63fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 23/51] fix: centre of the bias window of inelastic
 cotunnelling

---
 edpyt/cotnl.py       | 2 +-
 edpyt/cotunneling.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index b83f92d..dd5b0ef 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -244,7 +244,7 @@ class Sigma:
     def approximate(self, A, extract, inject, beta, mu):
         x = self.dE-mu[extract]+mu[inject]
         # return G(beta, x) * self(0.5*x, A, extract, inject)
-        return G(beta, x) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+        return G(beta, x) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
     
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 26f6858..dfdca8d 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -237,7 +237,7 @@ class _Sigma:
 
     def approximate(self, A, extract, inject, beta, mu):
         return self.G(beta, self.dE-mu[extract]+mu[inject]
-               ) * self(0.5*(self.dE+sum(mu)), A, extract, inject)
+               ) * self(0.5*(mu[extract]+mu[inject]-self.dE), A, extract, inject)
               
 
 class _Sigmae(_Sigma):
-- 
2.43.0


From f80ff97e985ad60ec62bc937249366dfb0f433bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 24/51] fix: Fermi factors of the numerically integrated rates

---
 edpyt/cotnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index dd5b0ef..9f07593 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -265,8 +265,8 @@ class Sigma:
         mu_low, mu_high = sorted((mu_extract, mu_inject))
         eners = np.linspace(mu_low-4/beta, mu_high+4/beta, 200, endpoint=True)
         return np.trapz(self(eners,A,extract,inject)
-                        * nF(beta*(eners-mu_extract)
-                        * nF(-beta*(eners-mu_inject))), # (1 - nF)
+                        * nF(beta*(eners-mu_extract))
+                        * nF(-beta*(eners-mu_inject)), # (1 - nF)
                         eners)
 
 
-- 
2.43.0


From d626f1510c79c1abb1d7ffa09f56301b74929e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 25/51] fix: transitions to the empty and to the full system

---
 edpyt/cotnl.py | 4 ++--
 edpyt/sqtnl.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 9f07593..080757c 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -128,11 +128,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spins in product(range(2), repeat=2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gf2edict = excite_electron(spins, n, N, espace)
         else:
             gf2edict = dict() # empty
-        if N-1 > 0:
+        if N-1 >= 0:
             gf2hdict = excite_hole(list(reversed(spins)), n, N, espace)
         else:
             gf2hdict = dict()
diff --git a/edpyt/sqtnl.py b/edpyt/sqtnl.py
index c186b41..494fe13 100644
--- a/edpyt/sqtnl.py
+++ b/edpyt/sqtnl.py
@@ -75,11 +75,11 @@ def build_transition_elements(n, espace, N=None, egs=None, cutoff=None):
     N_max = 2*n
     for spin in range(2):
         # Electron and hole green functions.
-        if N+1 < N_max:
+        if N+1 <= N_max:
             gfdict = excite_electron(spin, n, N, espace)
             gfdict.update(excite_hole(spin, n, N+1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-        if N-1 > 0:
+        if N-1 >= 0:
             gfdict = excite_hole(spin, n, N, espace)
             gfdict.update(excite_electron(spin, n, N-1, espace))
             for k in gfdict: sigmadict[k].append(gfdict[k])
-- 
2.43.0


From d5b19742bbc66aab00e25139a8a890e981d69710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 26/51] fix: stationary solution is the null vector in every
 time unit

---
 edpyt/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/rates.py b/edpyt/rates.py
index ad787a0..549cd49 100644
--- a/edpyt/rates.py
+++ b/edpyt/rates.py
@@ -11,7 +11,7 @@ def stationary_solution(W):
     """
     w, v = np.linalg.eig(W)
 
-    j_stationary = np.argmin(abs(w - 1.0))
+    j_stationary = np.argmin(abs(w))
     p_stationary = v[:,j_stationary].real
     p_stationary /= p_stationary.sum()
     return p_stationary
-- 
2.43.0


From 44faf8e40ebeff2d469a302c50d03f8567c99a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 27/51] fix: exact cotunnelling rates sum over all intermediate
 states

---
 edpyt/cotnl.py       | 13 +++----------
 edpyt/cotunneling.py | 24 ++++++++++++------------
 edpyt/integrals.py   | 12 +++++++++++-
 3 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index 080757c..ee4cc38 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -9,7 +9,7 @@ from operator import attrgetter
 from numpy.lib.function_base import extract
 from traitlets.traitlets import default
 
-from edpyt.integrals import I1, I2, Gamma1, Gamma2, Gamma4
+from edpyt.integrals import Gamma
 from edpyt.lookup import binsearch
 from edpyt.operators import cdg, c
 from edpyt.sector import OutOfHilbertError
@@ -249,15 +249,8 @@ class Sigma:
     def exact(self, A, extract, inject, beta, mu):
         mu = [mu[extract]-self.dE,mu[inject]]
         Y = [Y for gf in self.gf2 for Y in gf.y(A, extract, inject)]
-        E = [-E for gf in self.gf2 for E in gf.E]
-        if len(Y) == 1:
-            return Gamma1(*Y,*E,mu,beta)
-        elif len(Y) == 2:
-            return Gamma2(*Y,*E,mu,beta)
-        elif len(Y) == 4:
-            return Gamma4(*Y,*E,mu,beta)
-        else:
-            raise NotImplementedError("Integral with {len(Y)} terms not yet implemented.")
+        E = [E for gf in self.gf2 for E in gf.E]
+        return Gamma(Y, E, mu, beta)
 
     def integrate(self, A, extract, inject, beta, mu):
         mu_extract = mu[extract] - self.dE
diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index dfdca8d..18104e4 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -4,7 +4,7 @@ from itertools import zip_longest
 from collections import defaultdict
 from operator import attrgetter
 
-from edpyt.integrals import Gamma1, Gamma2
+from edpyt.integrals import Gamma
 
 from edpyt.sector import (
     OutOfHilbertError, get_c_sector, get_cdg_sector)
@@ -247,9 +247,9 @@ class _Sigmae(_Sigma):
     #  |  e     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[inject].dot(self.gf2.vF[0])*A[extract].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[inject].dot(self.gf2.vF.T)*A[extract].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
@@ -264,9 +264,9 @@ class _Sigmah(_Sigma):
     #  |  h     | 
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma1(
-            A[extract].dot(self.gf2.vF[0])*A[inject].dot(self.gf2.vI[0]), # A
-            self.gf2.E[0], # epsA
+        return Gamma(
+            A[extract].dot(self.gf2.vF.T)*A[inject].dot(self.gf2.vI.T), # A
+            self.gf2.E, # epsA
             [mu[extract]-self.dE,mu[inject]], beta)
     
     def __call__(self, z, A, extract, inject):
@@ -295,11 +295,11 @@ class Sigma(_Sigma):
         super().__init__(self.gf2e)
     
     def integrate(self, A, extract, inject, beta, mu):
-        return Gamma2(
-            A[inject].dot(self.gf2e.vF[0])*A[extract].dot(self.gf2e.vI[0]), #A
-            A[extract].dot(self.gf2h.vF[0])*A[inject].dot(self.gf2h.vI[0]), #B
-            self.gf2e.E[0], # epsA
-            self.gf2h.E[0], # epsB
+        return Gamma(
+            np.append(
+                A[inject].dot(self.gf2e.vF.T)*A[extract].dot(self.gf2e.vI.T), #A
+                A[extract].dot(self.gf2h.vF.T)*A[inject].dot(self.gf2h.vI.T)), #B
+            np.append(self.gf2e.E, self.gf2h.E), # epsA, epsB
             [mu[extract]-self.dE,mu[inject]], beta)
 
     def __call__(self, z, A, extract, inject):
diff --git a/edpyt/integrals.py b/edpyt/integrals.py
index de0a843..3acb56a 100644
--- a/edpyt/integrals.py
+++ b/edpyt/integrals.py
@@ -80,4 +80,14 @@ def Gamma4(A, B, C, D, epsA, epsB, epsC, epsD, mu, beta):
          - Gamma2(A,-D,epsA,epsD,mu,beta) \
          - Gamma2(B,-C,epsB,epsC,mu,beta) \
          + Gamma2(B,D,epsB,epsD,mu,beta) \
-         + Gamma2(C,D,epsC,epsD,mu,beta)
\ No newline at end of file
+         + Gamma2(C,D,epsC,epsD,mu,beta)
+
+
+def Gamma(Y, E, mu, beta):
+    """Any number of terms: |sum_k Y[k]/(z - E[k])|^2."""
+    res = 0.
+    for k in range(len(Y)):
+        res += I1(Y[k],E[k],mu,beta)
+        for l in range(k):
+            res += 2 * I2(Y[k],Y[l],E[k],E[l],mu,beta)
+    return res
-- 
2.43.0


From 4d978bf7d84d82be616ac7ba75088beb985d6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 28/51] fix: building the rate matrix no longer inserts empty
 transitions

---
 edpyt/cotunneling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index 18104e4..adb3aa2 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -181,7 +181,7 @@ def build_transition_elements(n, egs, espace, cutoff=None):
         project_sector(n, ns[0], ns[1], espace, sigmadict, ispin_subset)
     if cutoff is not None:
         return screen_transition_elements(sigmadict, egs, espace, cutoff)
-    return sigmadict
+    return dict(sigmadict)
 
 
 class Gf2:
-- 
2.43.0


From df008e234808fc2403c138aa4decaa5814b7658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:08 +0000
Subject: [PATCH 29/51] fix: screening keeps intermediate states coupled with
 alternating signs

---
 edpyt/cotnl.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index ee4cc38..d7ef95d 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -325,16 +325,13 @@ def screen_transition_elements(sigmadict, egs, espace, cutoff):
                 and(abs(espace[idF[:1]].eigvals[idF[1]]-egs)<cutoff)
                 and(abs(espace[idI[:1]].eigvals[idI[1]]-egs)<cutoff)}
     # return sigmadict
-    n = sigmadict[next(iter(sigmadict))][0].gf2[0].vF.shape[1]
-    A = np.ones((2,n))
     screened = {}
     for (idF,idI), sigmalist in sigmadict.items():
         sigmas = []
         for sigma in sigmalist:
             gfs = []
             for gf in sigma.gf2:
-                y = gf.y(A, 1, 0)
-                nnz_idx = np.abs(y) > 1e-10
+                nnz_idx = np.abs(gf.vF).max(1) * np.abs(gf.vI).max(1) > 1e-10
                 if any(nnz_idx):
                     gfs.append(gf)
                     gf.vF = gf.vF[nnz_idx,:]
-- 
2.43.0


From 364187f810713046b8cd479c3a73822aa193c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 30/51] fix: sectors to solve for cotunnelling stay within the
 Hilbert space

---
 edpyt/cotunneling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edpyt/cotunneling.py b/edpyt/cotunneling.py
index adb3aa2..5e5e0c5 100644
--- a/edpyt/cotunneling.py
+++ b/edpyt/cotunneling.py
@@ -394,7 +394,8 @@ def find_active_sectors(ngs):
 def get_active_neig(n, ngs, val=2):
     from edpyt.lookup import get_sector_index
     neig = np.zeros((n+1)*(n+1),int)
-    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)]
+    idx = [get_sector_index(n,nup,ndw) for nup,ndw in find_active_sectors(ngs)
+           if 0<=nup<=n and 0<=ndw<=n]
     for i in idx:
         neig[i] = val
     return neig
\ No newline at end of file
-- 
2.43.0


From c08489eccf59ddf7d6390e3a72b1451e85c6d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 31/51] fix: rate matrix of a sector with a single state

---
 edpyt/cotnl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edpyt/cotnl.py b/edpyt/cotnl.py
index d7ef95d..9011f32 100644
--- a/edpyt/cotnl.py
+++ b/edpyt/cotnl.py
@@ -302,6 +302,8 @@ def build_rate_and_transition_matrices(sigmadict, beta, mu, A, extract, inject,
         # if idF[1] != idI[1]:
             W[idI,idI] -= gamma.sum()
             W[idF,idI] += gamma.sum()
+        else:
+            W[idI,idI] += 0. # Also for a single state.
         T[idF,idI] += gamma[extract,inject] - gamma[inject,extract]
     if build_matrices:
         return map(lambda D: dict_to_matrix(D), [W,T])
-- 
2.43.0


From b5027b6e5f3dd98ab81609fa8f5028ba9923888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 32/51] fix: integration up to several chemical potentials at
 once

---
 edpyt/integrate_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/integrate_gf.py b/edpyt/integrate_gf.py
index ae3ca58..89531bc 100644
--- a/edpyt/integrate_gf.py
+++ b/edpyt/integrate_gf.py
@@ -83,7 +83,7 @@ def integrate_gf(gf, mu=0, T=300, nzp=100, R=1e10):
         a_p = mu + 1j*zp/beta
     else:
         mu = np.broadcast_to(mu, (nzp,)+mu.shape)
-        zp = np.resize(zp, mu.shape)
+        zp = zp.reshape((nzp,)+(1,)*(mu.ndim-1))
         a_p = mu + 1j*zp/beta
 
     R = 1e10
-- 
2.43.0


From b449919de2a29563ea5766b646559566b64a96ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 33/51] fix: intrep is the inverse of binrep

---
 edpyt/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/lookup.py b/edpyt/lookup.py
index 3cb5d3b..66df961 100644
--- a/edpyt/lookup.py
+++ b/edpyt/lookup.py
@@ -41,9 +41,9 @@ def binrep(i, n, format="array"):
 def intrep(arr_repr):
     """Inverse of binrep."""
     if isinstance(arr_repr, str):
-        return np.uint32(int(arr_repr, base=2))
+        return np.uint32(int(arr_repr[::-1], base=2))
     i = unsiged_dt(0)
-    for shift, j in enumerate(arr_repr[::-1]):
+    for shift, j in enumerate(arr_repr):
         if j:
             i += unsiged_dt(1) << shift
     return i
-- 
2.43.0


From 789bcc0a1478930a648eb9df0617ef0e15172903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 34/51] fix: printing the states of (up,down) sectors

---
 edpyt/eshow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/eshow.py b/edpyt/eshow.py
index 02a21e9..85f9598 100644
--- a/edpyt/eshow.py
+++ b/edpyt/eshow.py
@@ -24,7 +24,7 @@ def eprint(espace, n):
     def fockstates(sct):
         
         states = []
-        if hasattr(states,'up'):
+        if hasattr(sct.states,'up'):
             for sdw in sct.states.dw:
                 for sup in sct.states.up:
                     states.append( fock(sup,sdw,n) )
-- 
2.43.0


From f3da2f0f2bb3a497c9330f9c86a1ec4faa7b3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 35/51] fix: line search keeps the minimum inside its bracket

---
 edpyt_backend/dbrent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 7d1d8ab..175247c 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -80,7 +80,7 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			MOV3(x, fx, dx, u, fu, du)
 		}
 		else {
-			if (u < x) a = x; else b = u;
+			if (u < x) a = u; else b = u;
 			if (fu <= fw || w == x) {
 				MOV3(v, fv, dv, w, fw, dw)
 				MOV3(w, fw, dw, u, fu, du)
-- 
2.43.0


From 97bc6faffcad058cef1b7743e766c6df44617fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 36/51] fix: middle level of the initial bath of three sites

---
 edpyt_backend/bath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt_backend/bath.c b/edpyt_backend/bath.c
index b40c6e0..bea3813 100644
--- a/edpyt_backend/bath.c
+++ b/edpyt_backend/bath.c
@@ -40,7 +40,7 @@ void init_bath(double x[]) {
         }
     }
     // odd :: [-2,-1,0,+1,+2]
-    else if ((nbath&1)&&(nbath>3)) {
+    else if ((nbath&1)&&(nbath>=3)) {
         de = BANDWIDTH/(double)nhalf;
         ek[nhalf] = 0.;
         for (j=1; j<nhalf; j++) {
-- 
2.43.0


From d7cdb9861db1e9bbc5a7f69c1c9904bf5b36b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 37/51] fix: the fit starts from the initial bath instead of
 uninitialised memory

---
 edpyt_backend/fit_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edpyt_backend/fit_wrap.py b/edpyt_backend/fit_wrap.py
index 0e5fda4..52a0961 100644
--- a/edpyt_backend/fit_wrap.py
+++ b/edpyt_backend/fit_wrap.py
@@ -6,6 +6,9 @@ from pathlib import Path
 path = Path(__file__).parent.absolute()
 # print(path)
 lib = ct.CDLL(path/'libfit.so')
+init_bath = lib.init_bath
+init_bath.restype = None
+init_bath.argtypes = [ndpointer(ct.c_double)]
 fit = lib.fit
 fit.restype = None
 fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
@@ -16,6 +19,8 @@ fit.argtypes = [ndpointer(ct.c_double),ct.POINTER(ct.c_int),
 def fit_hybrid(nbath, nmats, delta, beta):
     
     x = np.empty(2*nbath, np.float64)
+    ct.c_int.in_dll(lib, 'nbath').value = nbath
+    init_bath(x)
     delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ct.c_int(0)
     fret = ct.c_double()
-- 
2.43.0


From 8093ef1474d5d03ec506a7ff76c0304829edf17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 38/51] fix: reaching the iteration limit of the fit no longer
 ends the process

---
 edpyt_backend/dbrent.c | 4 ++--
 edpyt_backend/frprmn.c | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/edpyt_backend/dbrent.c b/edpyt_backend/dbrent.c
index 175247c..473f9e8 100644
--- a/edpyt_backend/dbrent.c
+++ b/edpyt_backend/dbrent.c
@@ -90,6 +90,6 @@ double dbrent(double ax, double bx, double cx, double(*f)(double),
 			}
 		}
 	}
-	nrerror("Too many iterations in routine dbrent");
-	return 0.0;
+	*xmin = x;
+	return fx;
 }
diff --git a/edpyt_backend/frprmn.c b/edpyt_backend/frprmn.c
index ca16f5b..0b639eb 100644
--- a/edpyt_backend/frprmn.c
+++ b/edpyt_backend/frprmn.c
@@ -57,5 +57,6 @@ void frprmn(double p[], int n, double ftol, int *iter, double *fret,
             xi[j]=h[j]=g[j]+gam*h[j];
         }
     }
-    nrerror("Too many iterations in frprmn");
+    // Not converged (*iter == ITMAX): p is the best point so far.
+    FREEALL
 }
\ No newline at end of file
-- 
2.43.0


From d050d400d86626998825f565000f9f7e4fdc9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 39/51] fix: the compiled fit reads strided and
 single-precision input

---
 edpyt/fit_cffi.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edpyt/fit_cffi.py b/edpyt/fit_cffi.py
index ee8d3a2..fb2be86 100644
--- a/edpyt/fit_cffi.py
+++ b/edpyt/fit_cffi.py
@@ -1,14 +1,20 @@
+import numpy as np
+
 from edpyt_backend._fit import lib, ffi
 
 _cfit = lib.fit
 
 def fit_hybrid(x, nmats, delta, beta):
     nbath = x.size//2
+    p = np.ascontiguousarray(x, dtype=np.float64)
+    delta = np.ascontiguousarray(delta, dtype=np.complex128)
     it = ffi.new('int*')
     fret = ffi.new('double* ')
-    x_ptr = ffi.cast('double*', x.ctypes.data)
+    x_ptr = ffi.cast('double*', p.ctypes.data)
     delta_ptr = ffi.cast('double _Complex*', delta.ctypes.data)
     lib.fit(x_ptr, it, fret, nbath, nmats, delta_ptr, beta)
+    if p is not x:
+        x[:] = p
     return it[0], fret[0]
 
 
-- 
2.43.0


From 784a2f9d0d4abf38f7d735bd5ce2eeba197fd6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 40/51] fix: the loop really makes the hybridisation causal

Indexing with a mask copies, the assignment to the copy's imaginary part
had no effect.
---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 06db8ec..ae08c97 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -445,7 +445,7 @@ class DMFT:
         print(f"Iteration : {self.it:2}")
         self.delta = delta
         non_causal = delta.imag > 0  # ensures that the imaginary part is negative
-        delta[non_causal].imag = -1e-20
+        delta.imag[non_causal] = -1e-20
         occp, delta_new = self.step(delta)
         print(
             f"Occupation : {occp:.5f} Chemical potential : {self.gfloc.mu:.5f}", end=" "
-- 
2.43.0


From 84dc593cc4b4dc3509eb6cfa7d5b60b385f8f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 41/51] fix: DMFT without occupancy goal (the default) does not
 fail when printing

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index ae08c97..772a3bb 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -433,7 +433,7 @@ class DMFT:
             occp = self.gfloc.integrate(self.gfloc.mu)
         else:
             dmft_step(delta, self.gfimp, self.gfloc)
-            occp = self.occupancy_goal
+            occp = np.nan if self.occupancy_goal is None else self.occupancy_goal
         delta_new = self.gfloc.Delta(self.z)
         return np.sum(occp), delta_new
 
-- 
2.43.0


From 079b6abee0d6aca3550f208beceeeaf5ca7979ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 42/51] fix: impurity Green's function at a single frequency

integrate() evaluates it at scalars, which the generalised ufunc refuses.
---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index 772a3bb..d07129f 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -56,7 +56,7 @@ class Delta:
         fit_hybrid(self.x, self.nmats, delta, self.beta)
 
     def __call__(self, z):
-        return _delta(self.x, z)
+        return _delta(self.x, np.atleast_1d(z))
 
 
 class Gfimp:
-- 
2.43.0


From a775591ada0d6c6e02dab3b38f6bd8530c47ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 43/51] fix: default chemical potential of SpinGfimp.integrate

---
 edpyt/dmft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/dmft.py b/edpyt/dmft.py
index d07129f..b410caf 100644
--- a/edpyt/dmft.py
+++ b/edpyt/dmft.py
@@ -252,7 +252,7 @@ class SpinGfimp:
 
     # Helpers
 
-    def integrate(self, mu=None):
+    def integrate(self, mu=0.0):
         # Up and Down do NOT have same spectrum (in theory).
         return sum(integrate_gf(gfimp, mu) for gfimp in self)
 
-- 
2.43.0


From 099c08e8fa952e6d9c7f65930127afb3a324f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 44/51] fix: local Green's function of any choice of
 representative sites

The results were stored at the position of the representative in the list of
all sites, out of bounds or misplaced unless the representatives come first.
With one group of equivalent sites the iterator merged its axes and only the
first frequency was used.
---
 edpyt/nano_dmft.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 61ab221..67e3a19 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -77,15 +77,14 @@ class Gfloc:
         """Interacting Green's function."""
         z = np.atleast_1d(z)
         sigma = self.get_sigma(z)
-        it = np.nditer([sigma, z, None], flags=['external_loop'], order='F')
-        with it:
-            for sigma_, z_, out in it:
-                x = self.free(z_[0], inverse=True)
-                x.flat[::(self.n+1)] -= sigma_[self.idx_inv]
-                out[self.idx_neq,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            return it.operands[2][self.idx_neq,...]
-                # out[self.idx_world,...] = np.linalg.inv(x).diagonal()[self.idx_neq]
-            # return it.operands[2][self.idx_world,...]
+        sigma = np.broadcast_to(sigma, sigma.shape[:-1]+z.shape)
+        # One inversion for each frequency (and spin), the 1st axis are sites.
+        gloc = np.empty((len(self.idx_neq),)+sigma.shape[1:], complex)
+        for i in np.ndindex(sigma.shape[1:]):
+            x = self.free(z[i[-1]], inverse=True)
+            x.flat[::(self.n+1)] -= sigma[(slice(None),)+i][self.idx_inv]
+            gloc[(slice(None),)+i] = np.linalg.inv(x).diagonal()[self.idx_neq]
+        return gloc
 
     def update(self, mu):
         """Update chemical potential."""
-- 
2.43.0


From 623bf3b73eb814923f2fa75b70acc926cf121011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 45/51] fix: occupation of a single site with two spins

squeeze() took the spin axis for the site axis, so both spins were doubled
instead of added.
---
 edpyt/nano_dmft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edpyt/nano_dmft.py b/edpyt/nano_dmft.py
index 67e3a19..8970445 100644
--- a/edpyt/nano_dmft.py
+++ b/edpyt/nano_dmft.py
@@ -30,11 +30,11 @@ def _get_occps_method(comm):
             self.comm.Allgather([occps_loc, occps_loc.size], [occps, occps_loc.size])
             shape = list(occps_loc.shape)
             shape[0] *= self.comm.size
-            return np.squeeze(occps.reshape(shape)[self.idx_inv,...])
+            return occps.reshape(shape)[self.idx_inv,...]
     else:
         def wrap(self, mu):
             occps = integrate_gf(self, mu)
-            return np.squeeze(occps[self.idx_inv,...])
+            return occps[self.idx_inv,...]
     return wrap
 
 
-- 
2.43.0


From 672cdc646718852c72621f4666d667011c8f1d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 46/51] fix: samples stay in the support of the distribution

The cumulated weights did not quite reach 1, so that random numbers next to 1
were out of range, and 0 selected the first energy whatever its weight. The
values returned by the distribution were normalised and cumulated in place.
---
 edpyt/dedlib.py     | 6 +++---
 edpyt/dedlib_dev.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 55999fb..3a26a9b 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -51,9 +51,9 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
-        cdf /= cdf.sum()
+        cdf = np.array(p(self.eners), float) # p keeps its own values.
         cumsum(cdf)
+        cdf /= cdf[-1] # Exactly 1 at the end.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
@@ -64,7 +64,7 @@ class RandomSampler:
         '''
         n = self.poles.size
         for i in range(n):
-            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
+            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random(), side='right')]
         self.poles.sort()
 
 
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 1a0a6bd..3d81731 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -51,9 +51,9 @@ class RandomSampler:
         '''
         self.eners = np.linspace(lims[0],lims[1],int(np.diff(lims)*nsamples+1),
                                  endpoint=True)
-        cdf = p(self.eners)
-        cdf /= cdf.sum()
+        cdf = np.array(p(self.eners), float) # p keeps its own values.
         cumsum(cdf)
+        cdf /= cdf[-1] # Exactly 1 at the end.
         self.cdf = cdf
         self.poles = np.empty(n)
         self.rng = rng
@@ -64,7 +64,7 @@ class RandomSampler:
         '''
         n = self.poles.size
         for i in range(n):
-            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random())]
+            self.poles[i] = self.eners[np.searchsorted(self.cdf, self.rng.random(), side='right')]
         self.poles.sort()
 
 
-- 
2.43.0


From b90800215fcab0a7f12d67b749ab15239f59b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 47/51] fix: moam_solve averages every impurity over its own
 accepted samples

A sample may satisfy the constraint for some impurities only; dividing by the
number of samples reduced the averages of the others. Same as in dedlib_dev.
---
 edpyt/dedlib.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 3a26a9b..8eafe7a 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -329,6 +329,7 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
+    naccept = np.zeros(nimp)         # samples accepted by each impurity
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
@@ -386,11 +387,13 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
                     sigma[i] += np.reciprocal(gf0[i](z))-np.reciprocal(gf(z.real,z.imag))
                     imp_occp0[i] += occp0[i]
                     imp_occp1[i] += occp1[i]
+                    naccept[i] += 1
                     # imp_entropy += get_entropy(gfimp,espace,egs,beta)
                     found = True
-    sigma /= N
-    imp_occp0 /= N
-    imp_occp1 /= N
+    naccept = np.where(naccept>0, naccept, 1) # avoid division by zero.
+    sigma /= naccept[:,None]
+    imp_occp0 /= naccept
+    imp_occp1 /= naccept
     # imp_entropy /= (N*kB)
     imp_entropy = 0. #(N*kB)
     if return_sigma:
-- 
2.43.0


From d6954cf49dab820069363a5d8ad8c3fb84e588b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 48/51] fix: scalar interaction (the default) in moam_solve and
 ded_solve_multi

---
 edpyt/dedlib.py     | 2 ++
 edpyt/dedlib_dev.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index 8eafe7a..a808200 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -333,6 +333,8 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     # imp_entropy = 0.                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))             # non-interacting e-e interaction.
+    if np.isscalar(U):               # same on-site interaction on all impurities.
+        U = U*np.eye(nimp)
     if isinstance(U, np.ndarray):    # interacting e-e interaction.
         V1 = V0.copy()              
         V1[:nimp,:nimp] = U
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 3d81731..9d6bfc3 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -377,6 +377,8 @@ def ded_solve_multi(dos, z, sigma=None, sigma0=None, n=8,
     # imp_entropy = np.zeros(nimp)                 # impurity entropy
     H = np.zeros((n,n))
     V0 = np.zeros((n,n))
+    if np.isscalar(U):               # same on-site interaction on all impurities.
+        U = U*np.eye(nimp)
     if isinstance(U, np.ndarray):
         V1 = V0.copy()
         V1[:nimp,:nimp] = U
-- 
2.43.0


From 84c791c490775c90c07a7fba255988424a696ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 49/51] fix: the averaged self-energy does not depend on what
 the output array held

---
 edpyt/dedlib.py     | 4 ++++
 edpyt/dedlib_dev.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/edpyt/dedlib.py b/edpyt/dedlib.py
index a808200..ed4500a 100644
--- a/edpyt/dedlib.py
+++ b/edpyt/dedlib.py
@@ -228,6 +228,8 @@ def siam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
@@ -326,6 +328,8 @@ def moam_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros((nimp,z.size),complex)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = np.zeros(nimp)       # non-interacting impurity occupation
     imp_occp1 = np.zeros(nimp)       # interacting impurity occupation
diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index 9d6bfc3..b02a5d2 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -254,6 +254,8 @@ def ded_solve(dos, z, sigma=None, sigma0=None, n=4,
     if sigma is None:
         sigma = np.zeros_like(z)
         return_sigma = True
+    else:
+        sigma[:] = 0.
     if sigma0 is None: sigma0 = U/2. # chemical potential
     imp_occp0 = 0.                   # non-interacting impurity occupation
     imp_occp1 = 0.                   # interacting impurity occupation
-- 
2.43.0


From 2eb9514858306018dea6018e5d7366e923e31b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 50/51] fix: ded_solve of dedlib_dev called its occupation
 helper with the wrong arguments and layout

---
 edpyt/dedlib_dev.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/edpyt/dedlib_dev.py b/edpyt/dedlib_dev.py
index b02a5d2..c803352 100644
--- a/edpyt/dedlib_dev.py
+++ b/edpyt/dedlib_dev.py
@@ -131,7 +131,7 @@ class Gfimp:
         return np.reciprocal(z-self.e0-self.delta(z).sum(1))
 
 # @njit(cache=True,fastmath=True)
-def get_evecs_occupation(evecs, exps, states, pos):
+def get_evecs_occupation(evecs, exps, states_up, states_dw, pos):
     """Count particles in sector eigen-state vectors (size=dup x dwn).
 
     """
@@ -142,9 +142,7 @@ def get_evecs_occupation(evecs, exps, states, pos):
     N = 0.
     dup = states_up.size
     dwn = states_dw.size
-    if evecs.flags.f_contiguous:
-        evecs = evecs.T
-    occps = (evecs**2).reshape(-1, dwn, dup)
+    occps = (evecs.T**2).reshape(-1, dwn, dup)
 
     for iup in range(dup):
         sup = states_up[iup]
-- 
2.43.0


From 244b92ad5b305e5c32d7103f692d49177111a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 51/51] fix: draw_spin_density takes a single eigenvector as a
 column

---
 edpyt/cotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edpyt/cotools.py b/edpyt/cotools.py
index 48c9159..f7625bd 100644
--- a/edpyt/cotools.py
+++ b/edpyt/cotools.py
@@ -54,7 +54,7 @@ def draw_spin_density(atoms, evec, states, n, subset=None, axes=None, plane='xy'
         """
     axes = draw_skeleton(atoms, axes, plane)
     nup, ndw = map(lambda nxx: nxx[:,0], 
-                   get_evecs_occupation(np.atleast_2d(evec),states.up,states.dw,n))
+                   get_evecs_occupation(np.reshape(evec,(-1,1)),states.up,states.dw,n))
     ax = 'xyz'.index(plane[0]), 'xyz'.index(plane[1])
     for i in range(n):
         circle = plt.Circle(positions[i,ax], nup[i], color='black', zorder=10)
-- 
2.43.0

