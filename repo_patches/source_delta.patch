From be98db8ff2064bc1412604b2a66fb4ae6f4f0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 01/16] fix: give each outgoing RIXS operator its own cache of
 operator results

The caches were one shared dict, so every outgoing polarization returned the
result of the first one.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index 87f163f..a290481 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -907,7 +907,7 @@ def getRIXSmap(
     # Hamiltonian dict of the form  |PS> : {H|PS>}
     # For product states with a core hole.
     h_dict_excited = {}
-    tOut_big = [{}] * len(tOpsOut)
+    tOut_big = [{} for _ in tOpsOut]
     if parallelization_mode in ("serial", "H_build"):
         # Loop over in-coming transition operators
         for tIn, tOpIn in enumerate(tOpsIn):
-- 
2.43.0


From 08ef47bc30026e0545c347eff06c170bd422ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 02/16] fix: allgather_dict crashed because np.int no longer
 exists in numpy

---
 impurityModel/ed/mpi_comm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/mpi_comm.py b/impurityModel/ed/mpi_comm.py
index a7f88fd..e2754ea 100644
--- a/impurityModel/ed/mpi_comm.py
+++ b/impurityModel/ed/mpi_comm.py
@@ -70,7 +70,7 @@ def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
     # Measure time for constructing H in matrix form
     t0 = time.time()
     # Number of elements for each rank.
-    n_ps_new = np.zeros(ranks, dtype=np.int)
+    n_ps_new = np.zeros(ranks, dtype=int)
     for r in range(ranks):
         n_ps_new[r] = comm.bcast(len(data), root=r)
     # Determine here if we can use a simple Allgather or need
-- 
2.43.0


From 2aa3cbf8111188d93c86d917b1c3265f4fc0c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 03/16] fix: azimuthal angle of the NIXS momentum transfer

arccos lost the sign of q_y and gave nan for q parallel to the z-axis.
---
 impurityModel/ed/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index a290481..eed0220 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -481,7 +481,7 @@ def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
     # Polar (colatitudinal) coordinate
     theta = np.arccos(q[2] / qNorm)
     # Azimuthal (longitudinal) coordinate
-    phi = np.arccos(q[0] / (qNorm * np.sin(theta)))
+    phi = np.arctan2(q[1], q[0])
     tOp = {}
     for k in range(kmin, abs(li + lj) + 1):
         if (li + lj + k) % 2 == 0:
-- 
2.43.0


From 6005d65289d989023176bd375a21ad9e09b109ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 04/16] fix: exhausted Krylov space is not an error

When the start state lies in an invariant subspace smaller than the basis,
the serial modes raised and, with a distributed Hamiltonian, rank 0 raised
while the other ranks waited forever in a broadcast.
---
 impurityModel/ed/finite.py  | 14 ++++++++------
 impurityModel/ed/spectra.py |  7 ++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 1747d70..9d68c5f 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -1958,9 +1958,10 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
                 if beta[j - 1] != 0:
                     v[1, :] = w / beta[j - 1]
                 else:
-                    # Pick normalized state v[j],
-                    # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                    raise ValueError(("Warning: beta==0, " + "implementation absent!"))
+                    # The Krylov space is exhausted: v[0],...,v[j-1] span an
+                    # invariant subspace. Since beta==0, remaining elements
+                    # do not contribute to the continued fraction.
+                    v[1, :] = 0
             # Broadcast vector v[1,:] from rank 0 to all ranks.
             comm.Bcast(v[1, :], root=0)
             wp_local = h.dot(v[1, :])
@@ -1983,9 +1984,10 @@ def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="spa
             if beta[j - 1] != 0:
                 v[1, :] = w / beta[j - 1]
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                raise ValueError("Warning: beta==0, implementation absent!")
+                # The Krylov space is exhausted: v[0],...,v[j-1] span an
+                # invariant subspace. Since beta==0, remaining elements
+                # do not contribute to the continued fraction.
+                v[1, :] = 0
             wp = h.dot(v[1, :])
             alpha[j] = np.dot(np.conj(wp), v[1, :]).real
             w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
diff --git a/impurityModel/ed/spectra.py b/impurityModel/ed/spectra.py
index eed0220..51a4bb3 100644
--- a/impurityModel/ed/spectra.py
+++ b/impurityModel/ed/spectra.py
@@ -636,9 +636,10 @@ def getGreen(
             if beta[j - 1] != 0:
                 v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
             else:
-                # Pick normalized state v[j],
-                # orthogonal to v[0],v[1],v[2],...,v[j-1]
-                print("Warning: beta==0, implementation missing!")
+                # The Krylov space is exhausted: v[0],...,v[j-1] span an
+                # invariant subspace. Since beta==0, remaining elements
+                # do not contribute to the continued fraction.
+                v[j] = {}
             # print('len(v[',j,'] =',len(v[j]))
             wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
             alpha[j] = inner(wp[j], v[j]).real
-- 
2.43.0


From 015b9cc618e9bb3fdd77c80bbcde352890aa640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 05/16] fix: accept rounding errors in the Hermiticity check

The exact comparison rejected every crystal-field Hamiltonian, e.g. the
default run with h0_NiO_CF.json, because of 1e-16 rounding differences.
---
 impurityModel/ed/finite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 9d68c5f..3762c00 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -288,7 +288,9 @@ def daggerOp(op):
 
 
 def assert_hermitian(op: dict[tuple, int | float | complex]):
-    assert daggerOp(op) == op
+    opDagger = daggerOp(op)
+    # Allow for rounding errors in the amplitudes.
+    assert all(abs(op.get(process, 0) - opDagger.get(process, 0)) < 1e-10 for process in op.keys() | opDagger.keys())
 
 
 def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
-- 
2.43.0


From b879dc8c655771868bdb3ab5a6b3b76da3e3da79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 06/16] fix: report thermal expectation values at the requested
 temperature

---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index ba538fc..a8f0a00 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index df7fda7..9f3bf06 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -206,7 +206,7 @@ def main(
         t0 = time.time()
 
     # Calculate static expectation values
-    finite.printThermalExpValues(nBaths, es, psis)
+    finite.printThermalExpValues(nBaths, es, psis, T=T)
     finite.printExpValues(nBaths, es, psis)
 
     # Print Slater determinants and weights
-- 
2.43.0


From 64e3a78356eed50f6694f3f1d35d38232ecd2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 07/16] fix: plotSpectra accepts the documented call without a
 filename

---
 impurityModel/plotScripts/plotSpectra.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 2163d19..5096447 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -221,6 +221,7 @@ if __name__ == "__main__":
     parser.add_argument(
         "filename",
         type=str,
+        nargs="?",
         default="spectra.h5",
         help="Filename containing spectra.",
     )
-- 
2.43.0


From 4c9b1445ebcf1a66a28e65e222bff8a79d5f3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:40 +0000
Subject: [PATCH 08/16] fix: 50p10bath script has 50 valence baths, not 10

---
 scripts/run_Ni_NiO_50p10bath.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/run_Ni_NiO_50p10bath.sh b/scripts/run_Ni_NiO_50p10bath.sh
index efa56ac..ea0f125 100755
--- a/scripts/run_Ni_NiO_50p10bath.sh
+++ b/scripts/run_Ni_NiO_50p10bath.sh
@@ -22,5 +22,5 @@ echo "Number of MPI ranks to use: $ranks"
 echo "H0 filename: $h0_filename"
 echo "Radial wavefunction filename: $radial_filename"
 
-mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 10 --dnConBaths 0 1
+mpirun -n $ranks python -m impurityModel.ed.get_spectra $h0_filename $radial_filename --nBaths 0 60 --nValBaths 0 50 --dnConBaths 0 1
 
-- 
2.43.0


From 5cd945043192c52128032f1ccc03ef3cc77cd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 09/16] fix: i2c refuses negative indices

---
 impurityModel/ed/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 3762c00..cf66579 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -834,7 +834,7 @@ def i2c(nBaths, i):
     for lp, nBath in nBaths.items():
         b = i - k
         # Check if bath state belong to bath states having lp.
-        if b < nBath:
+        if 0 <= b < nBath:
             # The index "b" will have a value between 0 and nBath-1
             return (lp, b)
         k += nBath
-- 
2.43.0


From a0d1f175854d720def5ca269e83929f533f075bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 10/16] fix: get_basis refuses more valence holes than valence
 bath states

---
 impurityModel/ed/finite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index cf66579..49aa5af 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -327,8 +327,8 @@ def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
                     nImp = n0imp[l] + deltaNimp
                     nVal = valBaths[l] - dnVal
                     nCon = dnCon
-                    # Check for over-occupation
-                    assert nVal <= valBaths[l]
+                    # Check for over-occupation, and for more holes than valence bath states
+                    assert 0 <= nVal <= valBaths[l]
                     assert nCon <= nBaths[l] - valBaths[l]
                     assert nImp <= 2 * (2 * l + 1)
 
-- 
2.43.0


From e80159881a1253cdf3ddf05fd104c0a523599d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 11/16] fix: orthonormal eigenstates for degenerate levels of
 complex Hamiltonians

---
 impurityModel/ed/finite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 49aa5af..7bc7db9 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -107,6 +107,8 @@ def eigensystem(
         indices = np.argsort(es)
         es = np.array([es[i] for i in indices])
         vecs = np.array([vecs[:, i] for i in indices]).T
+        # For complex matrices ARPACK does not orthogonalize degenerate eigenvectors.
+        vecs, _ = np.linalg.qr(vecs)
     else:
         print("Wrong diagonalization mode")
     if rank == 0:
-- 
2.43.0


From 8787a0b0137969c0dba4624a38cc3e67b031339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 12/16] fix: README names the crystal-field script that exists

---
 README.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README.md b/README.md
index 6b561e2..2d86c27 100644
--- a/README.md
+++ b/README.md
@@ -62,7 +62,7 @@ These examples will read an non-interacting Hamiltonian from file.
 A simpler non-interacting Hamiltonian can instead be constructed by crystal-field parameters.
 This is done for NiO by typing:
 ```bash
-path/to/folder/impurityModel/scripts/run_Ni_NiO_CFparam.sh
+path/to/folder/impurityModel/scripts/run_Ni_NiO_CF.sh
 ```
 Although using a crystal-field approach is a bigger approximation, it is convinient when doing fitting to experimental spectra.
 But for more accurate simulations it is better to read in a non-interacting Hamiltonian from file, that has been constructed from e.g. DFT or DFT+DMFT simulations.
-- 
2.43.0


From f11c4f26ff72a3e70fd89b1d791d4b91c95784c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 13/16] fix: refuse occupation lists whose length differs from
 ls

---
 impurityModel/ed/get_spectra.py          | 4 ++++
 impurityModel/ed/get_spectra_using_CF.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index a8f0a00..aafe69a 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -578,6 +578,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 9f3bf06..60c2daa 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -781,6 +781,10 @@ if __name__ == "__main__":
     # Sanity checks
     assert len(args.ls) == len(args.nBaths)
     assert len(args.ls) == len(args.nValBaths)
+    assert len(args.ls) == len(args.n0imps)
+    assert len(args.ls) == len(args.dnTols)
+    assert len(args.ls) == len(args.dnValBaths)
+    assert len(args.ls) == len(args.dnConBaths)
     for nBath, nValBath in zip(args.nBaths, args.nValBaths):
         assert nBath >= nValBath
     for ang, n0imp in zip(args.ls, args.n0imps):
-- 
2.43.0


From d93d635bef319fb08c408bdfd4ea9562c6661ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:03 +0000
Subject: [PATCH 14/16] fix: plotSpectra draws RIXS maps for any number of
 polarisations

---
 impurityModel/plotScripts/plotSpectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/impurityModel/plotScripts/plotSpectra.py b/impurityModel/plotScripts/plotSpectra.py
index 5096447..d008046 100644
--- a/impurityModel/plotScripts/plotSpectra.py
+++ b/impurityModel/plotScripts/plotSpectra.py
@@ -192,7 +192,9 @@ def plot_spectra_in_file(filename):
 
         # All polarization combinations In:x,y,z , Out:x,y,z
         if rixs.shape[:2] != (1, 1):
-            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True)
+            fig, axes = plt.subplots(
+                nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True, squeeze=False
+            )
             for i in range(np.shape(axes)[0]):
                 for j in range(np.shape(axes)[1]):
                     tmp = np.copy(rixs[i, j, :, :].T)
@@ -206,7 +208,7 @@ def plot_spectra_in_file(filename):
                     if j == np.shape(axes)[1] - 1:
                         cbar.ax.set_ylabel("RIXS intensity")
                     axes[i, j].set_title(f"({i},{j})")
-            for ax in axes[2, :]:
+            for ax in axes[-1, :]:
                 ax.set_xlabel(r"$\omega_{in}$   (eV)")
             for ax in axes[:, 0]:
                 ax.set_ylabel(r"$\omega_{loss}$   (eV)")
-- 
2.43.0


From f33263b94e6a64b73e0c4d69b44a304d1cdbb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 15/16] fix: print product states completely

An array of bytes drops the trailing zero bytes of its elements, so the product
states of an eigenstate were printed truncated.
---
 impurityModel/ed/get_spectra.py          | 2 +-
 impurityModel/ed/get_spectra_using_CF.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/impurityModel/ed/get_spectra.py b/impurityModel/ed/get_spectra.py
index aafe69a..4e2530c 100644
--- a/impurityModel/ed/get_spectra.py
+++ b/impurityModel/ed/get_spectra.py
@@ -217,7 +217,7 @@ def main(
             print("Eigenstate {:d}.".format(i))
             print("Consists of {:d} product states.".format(len(psi)))
             ws = np.array([abs(a) ** 2 for a in psi.values()])
-            s = np.array(list(psi.keys()))
+            s = np.array(list(psi.keys()), dtype=object)
             j = np.argsort(ws)
             ws = ws[j[-1::-1]]
             s = s[j[-1::-1]]
diff --git a/impurityModel/ed/get_spectra_using_CF.py b/impurityModel/ed/get_spectra_using_CF.py
index 60c2daa..b54b34a 100644
--- a/impurityModel/ed/get_spectra_using_CF.py
+++ b/impurityModel/ed/get_spectra_using_CF.py
@@ -217,7 +217,7 @@ def main(
             print("Eigenstate {:d}.".format(i))
             print("Consists of {:d} product states.".format(len(psi)))
             ws = np.array([abs(a) ** 2 for a in psi.values()])
-            s = np.array(list(psi.keys()))
+            s = np.array(list(psi.keys()), dtype=object)
             j = np.argsort(ws)
             ws = ws[j[-1::-1]]
             s = s[j[-1::-1]]
-- 
2.43.0


From c1c5c0ba1fbeaf88b0ea7a126e8d6abc1610774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 16/16] fix: find all states of degenerate levels in the
 Lanczos diagonalization

Krylov spaces built from one start vector contain only one state of each
degenerate level, so eigsh often returned higher states instead. Search the
orthogonal complement until nothing lower is left.
---
 impurityModel/ed/finite.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/impurityModel/ed/finite.py b/impurityModel/ed/finite.py
index 7bc7db9..1847b3e 100644
--- a/impurityModel/ed/finite.py
+++ b/impurityModel/ed/finite.py
@@ -103,6 +103,22 @@ def eigensystem(
         vecs = vecs[:, :nPsiMax]
     elif groundDiagMode == "Lanczos":
         es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
+        # Starting from one vector, Lanczos easily misses states of degenerate levels.
+        # Hence, look for lower eigenvalues in the space orthogonal to the found eigenstates.
+        while True:
+            vecs, _ = np.linalg.qr(vecs)
+            shift = 1 + max(es) - min(es)
+            h_rest = scipy.sparse.linalg.LinearOperator(
+                h.shape,
+                matvec=lambda x, v=vecs, a=shift: h @ x + a * (v @ (np.conj(v.T) @ x)),
+                dtype=vecs.dtype,
+            )
+            e, vec = scipy.sparse.linalg.eigsh(h_rest, k=1, which="SA", tol=eigenValueTol)
+            highest = np.argmax(es)
+            if e[0] > es[highest] - 1e-8:
+                break
+            es[highest] = e[0]
+            vecs[:, highest] = vec[:, 0]
         # Sort the eigenvalues and eigenvectors in ascending order.
         indices = np.argsort(es)
         es = np.array([es[i] for i in indices])
-- 
2.43.0

