From 713a8e7db1e9e693af69f4cd1fda5990ce8a6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 001/122] fix: exact likelihood of AR(1) models used unit
 variance for the first observation

KARMA was called with iupd = 0 for AR(1), so the prediction step overwrote the
stationary state variance 1/(1-phi^2) with 1 before the first observation.
---
 src/emle.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index cf21961..a6759b5 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1416,7 +1416,7 @@ double fas154(double *b,int pq,void *params) {
 		}
 	}
 
-	iupd = 0;
+	iupd = 1;
 
 	if (ip == 1 && iq == 0) {
 		*V = 1.0;
@@ -1424,7 +1424,6 @@ double fas154(double *b,int pq,void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 	
@@ -2655,7 +2654,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	
 	//mdisplay(phi, 1, ir);
 	//mdisplay(theta, 1, ir);
-	iupd = 0;
+	iupd = 1;
 	//mdisplay(b, 1, pq);
 
 	if (ip == 1 && iq == 0) {
@@ -2664,7 +2663,6 @@ double fas154_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
@@ -2982,7 +2980,7 @@ double fas154x_seas(double *b, int pq, void *params) {
 		}
 	}
 	
-	iupd = 0;
+	iupd = 1;
 
 	if ((ip == 1 && iq == 0) || (ip == 0 && iq == 0)) {
 		*V = 1.0;
@@ -2990,7 +2988,6 @@ double fas154x_seas(double *b, int pq, void *params) {
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
 	}
 	else {
-		iupd = 1;
 		ifault = starma(ip, iq, phi, theta, A, P, V);
 	}
 
-- 
2.43.0


From 424b9a164f13f43e3f26d35fc7b7a85340d9f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 002/122] fix: exact likelihood of models without ARMA terms
 ran on uninitialised state

starma() rejects p = q = 0, so A, P and V stayed uninitialised (sarimax already
handled this case).
---
 src/emle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index a6759b5..ccd4d43 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1418,7 +1418,7 @@ double fas154(double *b,int pq,void *params) {
 
 	iupd = 1;
 
-	if (ip == 1 && iq == 0) {
+	if (ip <= 1 && iq == 0) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
@@ -2657,7 +2657,7 @@ double fas154_seas(double *b, int pq, void *params) {
 	iupd = 1;
 	//mdisplay(b, 1, pq);
 
-	if (ip == 1 && iq == 0) {
+	if (ip <= 1 && iq == 0) {
 		*V = 1.0;
 		*A = 0.0;
 		*P = 1.0 / (1.0 - phi[0] * phi[0]);
-- 
2.43.0


From a79a21d4a87f22bd02a0c7c54d31338f93cff89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 003/122] fix: css() left the last d residuals of a differenced
 fit uninitialised

N is already the length after differencing.
---
 src/emle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emle.c b/src/emle.c
index ccd4d43..b5e931d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1351,7 +1351,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	for (i = 0; i < N - d; ++i) {
+	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
 	*loglik = obj->loglik;
-- 
2.43.0


From 8a56de899c8efad8fc596d972a26a9acb7e57b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:02 +0000
Subject: [PATCH 004/122] fix: CSS covariance subtracted the differencing
 orders from the sample size twice

---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index b5e931d..580de17 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1319,7 +1319,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = (length - d) * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2138,7 +2138,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = (length - d - s*D) * 0.5 * (hess[i] + thess[i]);
 	}
 
 
@@ -2523,7 +2523,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	mtranspose(hess, pq, pq, thess);
 
 	for (i = 0; i < pq*pq; ++i) {
-		thess[i] = (N - d - s*D) * 0.5 * (hess[i] + thess[i]);
+		thess[i] = (length - d - s*D) * 0.5 * (hess[i] + thess[i]);
 	}
 
 
-- 
2.43.0


From 890b2ba4f52d33fb23d4424176a41663b58bdb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 005/122] fix: forecasts of models without ARMA terms were
 never computed

forkal() rejected p = q = 0 (white noise, random walk), so the predict
functions returned uninitialised arrays; the recursions are valid with r = 1.
---
 src/emle.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 580de17..61507ba 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -837,9 +837,6 @@ C*/
 	if (iq < 0) {
 		ifault = ifault + 2;
 	}
-	if (ip*ip + iq*iq == 0) {
-		ifault = 4;
-	}
 	if (id < 0) {
 		ifault = 8;
 	}
-- 
2.43.0


From ae9fb67d1290e7aadf9780fcee4bf1d23e8c9dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 006/122] fix: SARIMA residuals were never stored

sarima_init leaves res uninitialised and as154_seas()/css_seas() did not
return the residuals, so obj->res was garbage after every fit.
---
 src/ctsa.c |  4 ++--
 src/emle.c | 12 +++++++++---
 src/emle.h |  4 ++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index adb666d..081a54b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -542,13 +542,13 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	}
 	else if (obj->method == 1) {
 		obj->retval = css_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q,
-			obj->params + p + q + P, &obj->mean, &obj->var, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
+			obj->params + p + q + P, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
 	}
 	else if (obj->method == 2) {
diff --git a/src/emle.c b/src/emle.c
index 61507ba..1847621 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2028,7 +2028,7 @@ double fcss_seas(double *b, int pq, void *params) {
 }
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess) {
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess) {
 	int i, pq, retval, length, offset,ret;
 	double *b, *tf, *x, *inp2,*dx,*thess;
 	int *ipiv;
@@ -2169,6 +2169,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
@@ -2683,7 +2686,7 @@ double fas154_seas(double *b, int pq, void *params) {
 }
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean,double *var,double *loglik,double *hess,int cssml) {
+	double *PHI, double *THETA, double *wmean,double *var,double *resid,double *loglik,double *hess,int cssml) {
 	int i, pq, retval, length, offset,ret,nd,rp,ERR;
 	double *b, *tf, *x,*inp2,*dx,*thess,*res,*varcovar;
 	int *ipiv;
@@ -2702,7 +2705,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	sigma = 1.0;
 
 	if (cssml == 1) {
-		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, loglik, hess);
+		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
 		if (ERR == 10 || ERR == 12) return ERR;
@@ -2876,6 +2879,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	//printf("MEAN %g \n", mean(obj->x+N,N));
 	//mdisplay(obj->x + N, 1, N);
diff --git a/src/emle.h b/src/emle.h
index 9f9d2f3..1cdc441 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -174,7 +174,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 double fcss_seas(double *b, int pq, void *params);
 
 int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *loglik,double *hess);
+	double *phi, double *theta, double *PHI, double *THETA, double *wmean, double *var,double *resid,double *loglik,double *hess);
 
 double fcssx(double *b, int pq, void *params);
 
@@ -195,7 +195,7 @@ double fas154_seas(double *b, int pq, void *params);
 void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q);
 
 int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int P, int D, int Q,double *phi, double *theta, 
-	double *PHI, double *THETA, double *wmean, double *var, double *loglik, double *hess, int cssml);
+	double *PHI, double *THETA, double *wmean, double *var, double *resid, double *loglik, double *hess, int cssml);
 
 int flikam(double *P, int MP, double *Q, int MQ, double *W, double *E, int N, double *ssq, double *fact, double *VW, double *VL, int MRP1, double *VK, int MR, double TOLER);
 
-- 
2.43.0


From 0b29c02bf4147198e11a757167162e26fb595c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 007/122] fix: SARIMAX fits by CSS reported all-zero (or stale)
 residuals

---
 src/ctsa.c | 2 +-
 src/emle.c | 7 +++++--
 src/emle.h | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 081a54b..f578daa 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -396,7 +396,7 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 		obj->aic = -2.0 * obj->loglik + 2.0 * (obj->p + obj->q + obj->P + obj->Q + obj->M) + 2.0;
 	} else if (obj->method == 2) {
 		obj->retval = cssx(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
-			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
+			obj->params + p + q + P,obj->params + p + q + P + Q, obj->r, &obj->mean, &obj->var,obj->params + p + q + P + Q + M,&obj->loglik, obj->params + p + q + P + Q + M + N - d - s*D,obj->start,
 			obj->imean);
 		//mdisplay(obj->vcov,p+q+P+Q+M,p+q+P+Q+M);
 		obj->loglik = -0.5 * (obj->Nused * (2 * obj->loglik + 1.0 + log(2 * 3.14159)));
diff --git a/src/emle.c b/src/emle.c
index 1847621..5099e66 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1637,7 +1637,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	nd = d + D;
 
 	if (cssml == 1) {
-		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, loglik, hess,start,imean);
+		ERR = cssx(inp, N, xreg, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA,exog,r, wmean, var, resid, loglik, hess,start,imean);
 
 		if ( ERR != 1) return ERR;
 
@@ -2305,7 +2305,7 @@ double fcssx(double *b, int pq, void *params) {
 }
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean) {
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean) {
 	int i, pq, retval, length, offset,ret,nd,ncxreg,N1,rnk,orig,ERR;
 	double *b, *tf, *x, *inp2,*dx,*thess,*x0,*XX,*U,*V,*SIG,*coeff,*sigma,*varcovar,*res;
 	int *ipiv;
@@ -2565,6 +2565,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
 	//*var = (obj->ssq) / (double) N;
+	for (i = 0; i < N; ++i) {
+		resid[i] = obj->x[offset + N + i];
+	}
 	*loglik = obj->loglik;
 	
 	free(b);
diff --git a/src/emle.h b/src/emle.h
index 1cdc441..4d114a0 100644
--- a/src/emle.h
+++ b/src/emle.h
@@ -179,7 +179,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 double fcssx(double *b, int pq, void *params);
 
 int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, int s, int P, int D, int Q,
-	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *loglik,double *hess,int start,int imean);
+	double *phi, double *theta, double *PHI, double *THETA,  double *exog, int r, double *wmean, double *var,double *resid,double *loglik,double *hess,int start,int imean);
 
 double fas154(double *x, int N, void *params);
 
-- 
2.43.0


From 32d669d5f124b515f6bc21ee733bfff7ff81ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 008/122] fix: cssx() reset the wrong elements when starting
 from zero coefficients

theta, PHI and THETA are already offset into params, so the old values of a
previous fit survived as start values (and other fields were overwritten).
---
 src/emle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 5099e66..7ebfa01 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -2327,13 +2327,13 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			phi[i] = 0.0;
 		}
 		for (i = 0; i < q; ++i) {
-			theta[p + i] = 0.0;
+			theta[i] = 0.0;
 		}
 		for (i = 0; i < P; ++i) {
-			PHI[p + q + i] = 0.0;
+			PHI[i] = 0.0;
 		}
 		for (i = 0; i < Q; ++i) {
-			THETA[p + q + P + i] = 0.0;
+			THETA[i] = 0.0;
 		}
 	}
 
-- 
2.43.0


From c0c6aa52a5df3bc795244fea23a303e8d1866cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 009/122] fix: as154() and as154_seas() leaked a work array
 when the CSS start is nonstationary

---
 src/emle.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 7ebfa01..761e37f 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1469,7 +1469,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		Q = 0;
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, NULL, &P, NULL, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(x);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
@@ -2711,7 +2714,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		css_seas(inp, N, optmethod, p, d, q, s, P, D, Q, phi, theta, PHI, THETA, wmean, var, resid, loglik, hess);
 
 		ERR = checkroots_cerr(phi, &p, theta, &q, PHI, &P, THETA, &Q);
-		if (ERR == 10 || ERR == 12) return ERR;
+		if (ERR == 10 || ERR == 12) {
+			free(inp2);
+			return ERR;
+		}
 
 		coeff = *wmean;
 	}
-- 
2.43.0


From c83b3dedd6123800d2b36e3808ad2cd8d759a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 010/122] fix: predict functions read N residuals although
 objects hold N - d - s*D

The array is only an output of forkal(), so it needs no initial values from the
object; the copy read past the residuals (and the object) for differenced fits.
---
 src/ctsa.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index f578daa..b59ccab 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2232,7 +2232,7 @@ void arima_predict(arima_object obj,double *inp, int L,double *xpred,double *ams
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2296,7 +2296,7 @@ void ar_predict(ar_object obj, double *inp, int L, double *xpred, double *amse)
 		if (d == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2855,7 +2855,7 @@ void sarima_predict(sarima_object obj, double *inp, int L, double *xpred, double
 		if (d == 0 && D == 0) {
 			W[i] -= wmean;
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -2962,7 +2962,7 @@ void sarimax_predict(sarimax_object obj, double *inp, double *xreg, int L,double
 				W[i] -= obj->exog[j] * xreg[j*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3080,7 +3080,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
@@ -3203,7 +3203,7 @@ void sarimax_wrapper_predict(sarimax_wrapper_object obj, double *inp, double *xr
 				W[i] -= obj->sarimax->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
-		resid[i] = obj->sarimax->res[i];
+		resid[i] = 0.0;
 	}
 	for (i = 0; i < ir; ++i) {
 		phi[i] = theta[i] = 0.0;
-- 
2.43.0


From 092c92a888c4c1b51987d60b248d492a7b36e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 011/122] fix: archeck() rejected stationary polynomials with
 trailing zero coefficients

The effective degree was computed but the root finder still ran with the
padded degree, failed on the zero leading coefficient and left the roots
uninitialised.
---
 src/talg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 7db9a90..0cd22f4 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -784,9 +784,9 @@ int archeck(int p, double *ar) {
 
 	//polyroot(double *coeff, int DEGREE, double *ZEROR, double *ZEROI)
 
-	polyroot(coeff,p,zeror,zeroi);
+	polyroot(coeff,wmax,zeror,zeroi);
 
-	for(i = 0; i < p;++i) {
+	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
 		if (mod < 1.0) {
 			free(coeff);
-- 
2.43.0


From a1cd741fd5af1e5d461bebfd10d974a688050734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 012/122] fix: maximum likelihood fits reported success for
 nonstationary AR polynomials

The exact likelihood is only defined for stationary models; report the
documented codes 10 and 12 when the optimiser leaves the region.
---
 src/emle.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 761e37f..cbdafc0 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1575,6 +1575,12 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		invertroot(q,tf+p);
 	}
 
+	//Check for stationarity
+
+	if (ret == 1 && p > 0 && !archeck(p,tf)) {
+		ret = 10;
+	}
+
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 	
 	mtranspose(hess, pq, pq, thess);
@@ -1848,6 +1854,16 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 		invertroot(Q,tf+p+q+P);
 	}
 
+	//Check for stationarity
+
+	if (ret == 1 && p > 0 && !archeck(p,tf)) {
+		ret = 10;
+	}
+
+	if (ret == 1 && P > 0 && !archeck(P,tf+p+q)) {
+		ret = 12;
+	}
+
 
 
 	for (i = 0; i < pq - ncxreg; ++i) {
@@ -2849,6 +2865,16 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		invertroot(Q,tf+p+q+P);
 	}
 
+	//Check for stationarity
+
+	if (ret == 1 && p > 0 && !archeck(p,tf)) {
+		ret = 10;
+	}
+
+	if (ret == 1 && P > 0 && !archeck(P,tf+p+q)) {
+		ret = 12;
+	}
+
 	//if (obj->M == 1) dx[pq - 1] = sigma;
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
-- 
2.43.0


From 0938c06fe9932a925bac2972081ba54e7d42bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 013/122] fix: Nelder-Mead restarted from an inconsistent
 simplex and returned an arbitrary vertex

On a restart the base point was written over another vertex while its
function value went to the last one, the convergence probe drifted by one
step per coordinate, and the last rather than the lowest vertex was
returned.
---
 src/neldermead.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neldermead.c b/src/neldermead.c
index 58a1f0c..2cb574b 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -34,6 +34,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 	double ysum,yavg,s,dval;
 
 	rcode = 0;
+	ilo = 0;
 	reqmin = eps;
 	rcoeff = 1.0;
 	ecoeff = 2.0;
@@ -63,6 +64,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	while (ctl == 0 && *niter < siter) {
 		// Create N+1 point Simplex
+		ct = N * N;
 		for (i = 0; i < N;++i) {
 			P[ct + i] = xi[i];
 		}
@@ -291,6 +293,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			} else {
 				ctl++;
 			}
+			xmin[i] = xmin[i] + del;
 		}
 
 		if (ctl == 0) {
@@ -303,7 +306,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 
 	}
 
-	ct = N * N;
+	ct = ilo * N;
 	for (i = 0; i < N;++i) {
 		xf[i] = P[ct + i];
 	}
-- 
2.43.0


From 5e70697ad8bb606c02b61d90239cd2103b57452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 014/122] fix: Nelder-Mead reported success when the objective
 was Inf or NaN

NaN never compares lower, so the search stopped at once with return code 1.
Treat non-finite values as very large and return 15 when no finite value
was found.
---
 src/neldermead.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/neldermead.c b/src/neldermead.c
index 2cb574b..1db26bf 100644
--- a/src/neldermead.c
+++ b/src/neldermead.c
@@ -24,6 +24,16 @@
 
  */
 
+#define NM_BIG 1.0e35 // stands in for Inf/NaN function values
+
+static double nm_eval(custom_function *funcpt,double *x,int N) {
+	double val;
+
+	val = FUNCPT_EVAL(funcpt,x,N);
+
+	return isfinite(val) ? val : NM_BIG;
+}
+
 int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int MAXITER,int *niter,
 		double eps,double *xf) {
 	int rcode,NN,i,j,ct,ctl;
@@ -69,7 +79,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			P[ct + i] = xi[i];
 		}
 
-		fn = FUNCPT_EVAL(funcpt,xi,N);
+		fn = nm_eval(funcpt,xi,N);
 		Y[N] = fn;
 
 
@@ -79,7 +89,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			for (j = 0; j < N;++j) {
 				P[ct + j] = xi[j];
 			}
-			fn = FUNCPT_EVAL(funcpt, xi, N);
+			fn = nm_eval(funcpt, xi, N);
 			Y[i] = fn;
 			xi[i] -= dx[i] * del;
 		}
@@ -136,13 +146,13 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 			for (i = 0; i < N;++i) {
 				PS[i] = (1.0 + rcoeff) * PB[i] - rcoeff * P[ct+i];
 			}
-			ys = FUNCPT_EVAL(funcpt, PS, N);
+			ys = nm_eval(funcpt, PS, N);
 
 			if (ys < ylo) {
 				for (i = 0; i < N;++i) {
 					PSS[i] = ecoeff * PS[i] + (1.0 - ecoeff) * PB[i];
 				}
-				yss = FUNCPT_EVAL(funcpt, PSS, N);
+				yss = nm_eval(funcpt, PSS, N);
 
 				if (yss < ys) {
 					for(i = 0; i < N;++i) {
@@ -175,7 +185,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					for (i = 0; i < N;++i) {
 						PSS[i] = ccoeff * P[ct + i] + (1.0 - ccoeff) * PB[i];
 					}
-					yss = FUNCPT_EVAL(funcpt, PSS, N);
+					yss = nm_eval(funcpt, PSS, N);
 
 					if (yss <= Y[ihi]) {
 						for(i = 0; i < N;++i) {
@@ -192,7 +202,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 								P[ct + j] = 0.5 * (P[ct + j] + PL[j]);
 								PM[j] = P[ct + j];
 							}
-							Y[i] = FUNCPT_EVAL(funcpt, PM, N);
+							Y[i] = nm_eval(funcpt, PM, N);
 
 						}
 						ylo = Y[0];
@@ -217,7 +227,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 					for (i = 0; i < N;++i) {
 						PSS[i] = ccoeff * P[ct + i] + (1.0 - ccoeff) * PB[i];
 					}
-					yss = FUNCPT_EVAL(funcpt, PSS, N);
+					yss = nm_eval(funcpt, PSS, N);
 
 					if (yss <= ys) {
 						ct = ihi * N;
@@ -278,7 +288,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 		for (i = 0; i < N;++i) {
 			del = dx[i] * dval;
 			xmin[i] += del;
-			fn = FUNCPT_EVAL(funcpt, xmin, N);
+			fn = nm_eval(funcpt, xmin, N);
 			if (fn < ynl) {
 				ctl = 0;
 				break;
@@ -286,7 +296,7 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 				ctl++;
 			}
 			xmin[i] = xmin[i] - 2 * del;
-			fn = FUNCPT_EVAL(funcpt, xmin, N);
+			fn = nm_eval(funcpt, xmin, N);
 			if (fn < ynl) {
 				ctl = 0;
 				break;
@@ -317,6 +327,10 @@ int nel_min(custom_function *funcpt,double *xc,int N,double *dx,double fsval,int
 		rcode = 1;
 	}
 
+	if (rcode == 1 && Y[ilo] >= NM_BIG) {
+		rcode = 15;
+	}
+
 
 	free(Y);
 	free(P);
-- 
2.43.0


From 237ff4effd83862dfe2864591fa4ffabdf75fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 015/122] fix: covariances between MA and other coefficients
 had the wrong sign

The likelihood is maximised over -theta and -THETA, the object reports theta
and THETA; the covariance matrix was never converted.
---
 src/emle.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index cbdafc0..a6a564a 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -35,6 +35,21 @@ void checkroots(double *phi, int *p, double *theta, int *q, double *PHI, int *P,
 
 }
 
+// The MA coefficients are estimated with the opposite sign convention
+static void vcov_signs(double *vcov, int N, int p, int q, int P, int Q) {
+	int i, j, mi, mj;
+
+	for (i = 0; i < N; ++i) {
+		mi = (i >= p && i < p + q) || (i >= p + q + P && i < p + q + P + Q);
+		for (j = 0; j < N; ++j) {
+			mj = (j >= p && j < p + q) || (j >= p + q + P && j < p + q + P + Q);
+			if (mi != mj) {
+				vcov[i * N + j] = -vcov[i * N + j];
+			}
+		}
+	}
+}
+
 static int checkroots_cerr(double *phi, int *p, double *theta, int *q, double *PHI, int *P, double *THETA, int *Q) {
 	int ret,out;
 
@@ -1322,6 +1337,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, 0, 0);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -1592,6 +1608,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, 0, 0);
 
 
 	for (i = 0; i < p; ++i) {
@@ -1886,6 +1903,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, P, Q);
 
 
 	for (i = 0; i < p; ++i) {
@@ -2160,6 +2178,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, P, Q);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2548,6 +2567,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, P, Q);
 
 	for (i = 0; i < p; ++i) {
 		phi[i] = tf[i];
@@ -2889,6 +2909,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 
 	ludecomp(thess, pq, ipiv);
 	minverse(thess, pq, ipiv, hess);
+	vcov_signs(hess, pq, p, q, P, Q);
 
 	//mdisplay(hess,pq,pq);
 
-- 
2.43.0


From 643d6c0465053c80679dccc3789d9499c9c0cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 016/122] fix: standard errors of mean and regressors depended
 on the units of the data

The finite-difference step for the location coefficients was either absolute
or scaled by the inverse of their typical size, so their variances were
dominated by rounding for large- or small-scale data.
---
 src/emle.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index a6a564a..d83bf74 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1326,6 +1326,10 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 		dx[i] = 1.0;
 	}
 
+	if (obj->M == 1 && obj->ssq > 0.0) {
+		dx[pq - 1] = 1.0 / sqrt(obj->ssq / (double)N);
+	}
+
 	hessian_fd(&fcss_min, tf, pq, dx, obj->eps, hess);
 	//mdisplay(hess, pq, pq);
 	mtranspose(hess, pq, pq, thess);
@@ -1597,6 +1601,10 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 		ret = 10;
 	}
 
+	if (obj->M == 1 && obj->ssq > 0.0) {
+		dx[pq - 1] = 1.0 / sqrt(obj->ssq / (double)N);
+	}
+
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 	
 	mtranspose(hess, pq, pq, thess);
@@ -1888,7 +1896,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 	}
 
 	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i];
+		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0;
 	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
@@ -2167,6 +2175,10 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 		dx[i] = 1.0;
 	}
 
+	if (obj->M == 1 && obj->ssq > 0.0) {
+		dx[pq - 1] = 1.0 / sqrt(obj->ssq / (double)N);
+	}
+
 	hessian_fd(&css_min, tf, pq, dx, obj->eps, hess);
 
 	mtranspose(hess, pq, pq, thess);
@@ -2552,7 +2564,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	}
 	
 	for(i = 0; i < ncxreg; ++i) {
-		dx[pq - ncxreg + i] = sigma[i];
+		dx[pq - ncxreg + i] = sigma[i] > 0.0 ? 1.0 / sigma[i] : 1.0;
 	}
 	
 
@@ -2895,7 +2907,10 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 		ret = 12;
 	}
 
-	//if (obj->M == 1) dx[pq - 1] = sigma;
+
+	if (obj->M == 1 && obj->ssq > 0.0) {
+		dx[pq - 1] = 1.0 / sqrt(obj->ssq / (double)N);
+	}
 
 	hessian_fd(&as154_min, tf, pq, dx, obj->eps, hess);
 
-- 
2.43.0


From 3affb7e4a0a239c1092b69653e75063c22d0b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 017/122] fix: collinearity of regressors was judged on a
 scrambled matrix

---
 src/ctsa.c | 2 +-
 src/emle.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b59ccab..1db0a2e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1187,7 +1187,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	if (xreg) {
 		// Collinearity check
 
-		rnk = rank(xreg,N,r);
+		rnk = rank(xreg,r,N); // xreg holds one regressor per row
 
 		if (rnk < r) {
 			free(xx);
diff --git a/src/emle.c b/src/emle.c
index d83bf74..55fbe43 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1750,7 +1750,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N); // XX holds one regressor per row
 
 		if (rnk < ncxreg) {
 			ERR = 7;
@@ -2449,7 +2449,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 			memcpy(XX,x0,sizeof(double)*N*ncxreg);
 		}
 
-		rnk = rank(XX,N,ncxreg);
+		rnk = rank(XX,ncxreg,N); // XX holds one regressor per row
 
 		if (rnk < ncxreg) {
 			ERR = 7;
-- 
2.43.0


From 293d33b26342a4f78cd292c1f73c264d53143ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 018/122] fix: svd() scaled row reflections with columns beyond
 the row

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 09e3ae4..a70c9a3 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2605,7 +2605,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
-- 
2.43.0


From 138a1a2d2aa0963e5a7ed8b7184dbefb7fc7cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 019/122] fix: svd() and rank() leaked their work arrays when
 the iteration fails

---
 src/matrix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index a70c9a3..79eeb08 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2808,6 +2808,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -2963,6 +2964,9 @@ static int rank_c(double *A, int M,int N) {
 	qmax = q[0];
 	if ( ret != 0) {
 		printf("Failed to Compute SVD");
+		free(U);
+		free(V);
+		free(q);
 		return -1;
 	}
 
-- 
2.43.0


From 92f01ef89288167da4d7b78075a8137f65eedcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 020/122] fix: AR order selection never considered the AIC of
 order one

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 1db0a2e..8895862 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4114,7 +4114,7 @@ int ar_estimate(double *x, int N, int method) {
 		lvar = log(var);
 		aic = lvar + 2 * (double)(i + 1) / N;
 		if (i == 0) {
-			aic = aic0;
+			aic0 = aic;
 			p = 1;
 		}
 		else {
-- 
2.43.0


From 2cc1b96fa338475cd8d82ae15ae5e2419bec3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 021/122] fix: Burg estimates ignored the last observation

---
 src/ctsa.c    | 8 ++++----
 src/initest.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 8895862..6633afd 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2187,7 +2187,7 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N - 1, p, obj->params, &obj->var);
+		burgalg(inp, N, p, obj->params, &obj->var);
 	}
 
 	obj->order = obj->p;
@@ -2338,7 +2338,7 @@ void ar(double *inp, int N, int p,int method,double *phi,double *var) {
 		ywalg2(inp, N, p, phi,var);
 	}
 	else if (method == 1) {
-		burgalg(inp, N - 1, p, phi, var);
+		burgalg(inp, N, p, phi, var);
 	}
 	else if (method == 2) {
 		resid = (double*)malloc(sizeof(double)* N);
@@ -4100,7 +4100,7 @@ int ar_estimate(double *x, int N, int method) {
 			ywalg2(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 1) {
-			burgalg(inp, N-1, i + 1, phi, &var);
+			burgalg(inp, N, i + 1, phi, &var);
 		}
 		else if (method == 2) {
 			as154(inp, N, 7, i + 1, 0, 0, phi, NULL, &wmean, &var, resid, &loglik, hess,cssml);
@@ -4390,7 +4390,7 @@ void yw(double *x, int N, int p, double *phi, double *var) {
 }
 
 void burg(double *x, int N, int p, double *phi, double *var) {
-	burgalg(x, N-1, p, phi, var);
+	burgalg(x, N, p, phi, var);
 }
 
 void hr(double *x, int N, int p, int q, double *phi, double *theta, double *var) {
diff --git a/src/initest.c b/src/initest.c
index 068523b..27370bd 100644
--- a/src/initest.c
+++ b/src/initest.c
@@ -437,7 +437,7 @@ void pacf_burg(double* vec, int N, double* par, int M) {
 
 	temp = (double*)malloc(sizeof(double)* M);
 	for (i = 0; i < M; ++i) {
-		burgalg(vec, N-1, i + 1, temp, &var);
+		burgalg(vec, N, i + 1, temp, &var);
 		par[i] = temp[i];
 	}
 	free(temp);
-- 
2.43.0


From 5e64e368d9ad3a537317af4a94635f35952afcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 022/122] fix: Burg AR objects fitted the series without
 removing the mean

---
 src/ctsa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6633afd..a91d32a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2163,9 +2163,9 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 }
 
 void ar_exec(ar_object obj, double *inp) {
-	int p, N;
+	int p, N, i;
 	double loglik;
-	double *hess;
+	double *hess, *x;
 	N = obj->N;
 
 	obj->p = ar_estimate(inp, N, obj->method);
@@ -2187,7 +2187,12 @@ void ar_exec(ar_object obj, double *inp) {
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
-		burgalg(inp, N, p, obj->params, &obj->var);
+		x = (double*)malloc(sizeof(double)* N);
+		for (i = 0; i < N; ++i) {
+			x[i] = inp[i] - obj->mean;
+		}
+		burgalg(x, N, p, obj->params, &obj->var);
+		free(x);
 	}
 
 	obj->order = obj->p;
-- 
2.43.0


From bf49bcab5128858b95fd6873db740fc38e6bfef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 023/122] fix: residuals of AR objects were stored at the wrong
 offset

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a91d32a..244c5ac 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2175,7 +2175,7 @@ void ar_exec(ar_object obj, double *inp) {
 
 	if (obj->method == 2) {
 		hess = (double*)malloc(sizeof(double)* (p + 1) * (p + 1));
-		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->params + p, &loglik,
+		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, 0, 0 , obj->params, NULL, &obj->mean, &obj->var, obj->res, &loglik,
 			hess,cssml);
 		loglik = -0.5 * (N * (2 * loglik + 1.0 + log(2 * 3.14159)));
 		obj->aic = -2.0 * loglik + 2.0 * (obj->p + 1) + 2.0;
-- 
2.43.0


From 4712d539ee2b8abe94e0c5484c671478cbb061c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 024/122] fix: Yule-Walker and Burg AR fits reported an input
 error

---
 src/ctsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 244c5ac..71b5625 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2184,6 +2184,7 @@ void ar_exec(ar_object obj, double *inp) {
 	else if (obj->method == 0) {
 		obj->mean = mean(inp, N);
 		ywalg2(inp, N, p, obj->params, &obj->var);
+		obj->retval = 1;
 	}
 	else if (obj->method == 1) {
 		obj->mean = mean(inp, N);
@@ -2192,6 +2193,7 @@ void ar_exec(ar_object obj, double *inp) {
 			x[i] = inp[i] - obj->mean;
 		}
 		burgalg(x, N, p, obj->params, &obj->var);
+		obj->retval = 1;
 		free(x);
 	}
 
-- 
2.43.0


From 79baf4d0a5dadca24721395807631826d815aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 025/122] fix: free_auto() leaked the FFT objects

---
 src/stats.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 022e2e6..809f3d0 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -182,5 +182,7 @@ void autocorr_fft(auto_fft_object obj,double* vec,double* acorr, int M) {
 }
 
 void free_auto(auto_fft_object object) {
+	free_real_fft(object->fobj);
+	free_real_fft(object->iobj);
 	free(object);
 }
-- 
2.43.0


From 07777fc37b6df74375248369aeec68ae8a5c6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 026/122] fix: summaries chose the MA terms of the equation by
 the sign of AR coefficients

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 71b5625..3574566 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3389,7 +3389,7 @@ void sarima_summary(sarima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3501,7 +3501,7 @@ void arima_summary(arima_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
@@ -3653,7 +3653,7 @@ void sarimax_summary(sarimax_object obj) {
 		if (obj->theta[i] > 0) {
 			printf("- %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "]");
 		}
-		else if (obj->phi[i] < 0) {
+		else if (obj->theta[i] < 0) {
 			printf("+ %g*a[t - %d%s", fabs(obj->theta[i]), i + 1, "] ");
 		}
 	}
-- 
2.43.0


From 720cbfb0c01b06eded05e73449afdd2c42b82f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 027/122] fix: AR order selection kept order one when its fit
 failed

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 3574566..9a15e9e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4125,7 +4125,7 @@ int ar_estimate(double *x, int N, int method) {
 			p = 1;
 		}
 		else {
-			if (aic < aic0) {
+			if (aic < aic0 || aic0 != aic0) { // a failed fit leaves NaN
 				aic0 = aic;
 				p = i + 1;
 			}
-- 
2.43.0


From 3715751d21c7edb0f2f7b23183955235c911d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 028/122] fix: Phillips-Perron and KPSS statistics overflowed
 int arithmetic

---
 src/unitroot.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fa0b9e..8fbb78f 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -542,7 +542,7 @@ void ur_kpss(double *y, int N,const char* type,int lshort, int *klag, double *st
         s2 += (res[i] * res[i]);
     }
 
-    eta /= (double) (N*N);
+    eta /= ((double)N * (double)N);
     s2 /= (double) N;
 
     if (lshort == 1) {
@@ -588,11 +588,11 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     pval - p-value used to determine null hypothesis
 
     */
-    int i,j,N1,N2,p,l,pN,tN,iter;
+    int i,j,N1,p,l,pN,tN,iter;
     double *z,*yt,*yt1,*tt,*XX,*varcovar,*res,*table,*tablep;
     double at,nssqr_res,trm1,trm2,trm3,trm4,dx,alpha,s2,tstat;
     double sum_yt1,sum_yt12,sum_yt1n,interp;
-    long int N3;
+    double Nd,N2,N3;
     reg_object fit;
 
     double nT[6] = {25, 50, 100, 250, 500, 100000};
@@ -606,8 +606,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
      -2.64, -2.65, -2.66, -1.53, -1.66, -1.73, -1.78, -1.78, -1.79, -0.43, -0.65, -0.75, -0.82, -0.84, -0.87};// 8X6
 
     N1 = N - 1;
-    N2 = N1 * N1;
-    N3 = N2 * N1;
+    Nd = (double) N1;
+    N2 = Nd * Nd;
+    N3 = N2 * Nd;
 
     pN = 8;
     tN = 6;
@@ -680,9 +681,9 @@ void ur_pp(double *y, int N,const char* alternative,const char* type,int lshort,
     }
 
     trm1 = N2 * (N2-1) *sum_yt12 / 12.0;
-    trm2 = N1 * sum_yt1n * sum_yt1n;
-    trm3 = N1 * (N1+1) * sum_yt1n * sum_yt1;
-    trm4 = (N1 * (N1+1) * (2*N1+1) * sum_yt1 * sum_yt1) / 6.0;
+    trm2 = Nd * sum_yt1n * sum_yt1n;
+    trm3 = Nd * (Nd+1) * sum_yt1n * sum_yt1;
+    trm4 = (Nd * (Nd+1) * (2*Nd+1) * sum_yt1 * sum_yt1) / 6.0;
 
     dx = trm1-trm2+trm3-trm4;
 
@@ -746,12 +747,13 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     */
     double *y,*y_li,*trend,*XX,*varcovar,*res,*tt,*coprods,*weights;
     int *idx;
-    int N1, lmax, i,p, N12,len,iter;
-    double N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
+    int N1, lmax, i,p,len,iter;
+    double N12,N1d,at,my_tstat,beta_tstat,s,sum_res,sum_ymy,sum_y2,ymean,tstat;
     double myybar,myy,mty,my,sum_y,sig,lambda,lambda_prime,M,my_stat,beta_stat;
     reg_object fit;
 
     N1 = N - 1;
+    N12 = (double)N1 * (double)N1;
     y = &x[1];// length N1
     y_li = &x[0];// Length N1
 
@@ -766,9 +768,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
     }
 
     if (!strcmp(model,"trend")) {
-        cval[0] = -3.9638-8.353/N1-47.44/(N1*N1);
-        cval[1] = -3.4126-4.039/N1-17.83/(N1*N1);
-        cval[2] = -3.1279-2.418/N1-7.58/(N1*N1);
+        cval[0] = -3.9638-8.353/N1-47.44/N12;
+        cval[1] = -3.4126-4.039/N1-17.83/N12;
+        cval[2] = -3.1279-2.418/N1-7.58/N12;
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -816,7 +818,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         mty = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double)N1 * (double)N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
@@ -859,7 +861,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sig = s + 2.0 * sig / (double) N1;
         lambda = 0.5 * (sig - s);
         lambda_prime = lambda/sig;
-        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/(double)(N1*N1))*my*my;
+        M = (1-pow((double)N1, -2.0))*myy - 12*mty*mty + 12.0*(1.0 + 1.0/(double)N1)*mty*my - (4 + 6/(double)N1 + 2/N12)*my*my;
         my_stat = sqrt(s/sig)*my_tstat - lambda_prime*sqrt(sig)*my/(sqrt(M)*sqrt((M+my*my)));
         beta_stat = sqrt(s/sig)*beta_tstat - lambda_prime*sqrt(sig)*(0.5*my - mty)/(sqrt(M/12)*sqrt(myybar));
         auxstat[0] = my_stat;
@@ -888,9 +890,9 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         free(weights);
         free_reg(fit);
     } else if (!strcmp(model,"constant")) {
-        cval[0] = -3.4335-5.999/(double)N1-29.25/(double)(N1*N1);
-        cval[1] = -2.8621-2.738/(double)N1-8.36/(double)(N1*N1);
-        cval[2] = -2.5671-1.438/(double)N1-4.48/(double)(N1*N1);
+        cval[0] = -3.4335-5.999/(double)N1-29.25/N12;
+        cval[1] = -2.8621-2.738/(double)N1-8.36/N12;
+        cval[2] = -2.5671-1.438/(double)N1-4.48/N12;
         cprobs[0] = 0.01;
         cprobs[1] = 0.05;
         cprobs[2] = 0.1;
@@ -924,7 +926,7 @@ void ur_pp2(double *x, int N,const char* type,const char* model,int lshort, int
         sum_y = 0.0;
 
         ymean = mean(y,N1);
-        N12 = N1 * N1;
+        N12 = (double)N1 * (double)N1;
 
         for(i = 0; i < N1;++i) {
             sum_res += (res[i] *res[i]);
-- 
2.43.0


From c642aae87935554dc98f5dda35dbba5949da2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:13 +0000
Subject: [PATCH 029/122] fix: ur_df2() leaked a covariance matrix per lag
 tried

---
 src/unitroot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unitroot.c b/src/unitroot.c
index 8fbb78f..91e4cc8 100644
--- a/src/unitroot.c
+++ b/src/unitroot.c
@@ -233,6 +233,7 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
                 }
 
                 free_reg(fit);
+                free(varcovar);
             }
 
             ctemp = DBL_MAX;
@@ -250,7 +251,6 @@ void ur_df2(double *y, int N,const char* type, int *lags,const char *selectlags,
 
             free(critRes);
             free(XX);
-            free(varcovar);
         }
 
         XX = (double*)malloc(sizeof(double)*N2*(lags_+1));
-- 
2.43.0


From 06d5d0f94cd5930ac3fbfaaae4cb7d28ed5a743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 030/122] fix: stl() ignored the trend window and mistook inner
 for outer iterations

---
 src/seastest.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index 44153a0..cde771f 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -220,6 +220,8 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     if (t_window == NULL) {
         t_window_ = nextOdd(ceil( 1.5 * f / (1.0 - 1.5 / (double) s_window_)));
+    } else {
+        t_window_ = *t_window;
     }
 
     s_degree_ = (s_degree == NULL) ? 0 : *s_degree;
@@ -234,7 +236,7 @@ void stl(double *x,int N,int f, const char *s_window_type,int *s_window, int *s_
 
     robust_ = (robust == NULL) ? 0 : *robust;
     inner_ = (inner == NULL) ? (robust_ ? 1 : 2) : *inner;
-    outer_ = (inner == NULL) ? (robust_ ? 15 : 0) : *outer;
+    outer_ = (outer == NULL) ? (robust_ ? 15 : 0) : *outer;
 
     
     s_degree_ = degCheck(s_degree_);
-- 
2.43.0


From 0fa2393a6202c728223285d8b0d208d7bea34e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 031/122] fix: OCSBtest() refitted with a negative number of
 lags

---
 src/seastest.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seastest.c b/src/seastest.c
index cde771f..8d609c9 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -453,6 +453,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     ylag = genLags(y,Ny,lag,&ylrows,&ylcols);
 
+    if (lag <= 0) ylrows = 0; // no lagged terms
+
     //mdisplay(ylag,ylrows,ylcols);
 
     if (mlags > -1) {
@@ -648,7 +650,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
         }
 
         bestindex = getBestIndex(icvals,mlags);
-        maxlag = bestindex-1;
+        maxlag = bestindex;
         crit_reg = list[bestindex];
 
     }
-- 
2.43.0


From 94ca8436f15cf51bc6143d6ae3d2ceb4846a2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 032/122] fix: OCSB lag selection compared regressions on
 misaligned lags

---
 src/seastest.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 8d609c9..c87c3d2 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -468,7 +468,7 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
     mfrows = ylrows;
 
     for(i = 0; i < ylrows;++i) {
-        memcpy(mf+Ny*i,ylag+ylcols*i,sizeof(double)*Ny);
+        memcpy(mf+Ny*i,ylag+ylcols*i+(mlags-lag),sizeof(double)*Ny);
     }
 
     //mdisplay(mf,ylrows,Ny);
@@ -537,8 +537,8 @@ reg_object fitOCSB(double *x, int N, int f, int lag, int mlags) {
 
     XX = (double*) malloc(sizeof(double)*(mfrows+2) * Ny);
     memcpy(XX,mf,sizeof(double)*mfrows*Ny);
-    memcpy(XX+mfrows*Ny,z4,sizeof(double)*Ny);
-    memcpy(XX+(mfrows+1)*Ny,z5,sizeof(double)*Ny);
+    memcpy(XX+mfrows*Ny,z4+(mlags-lag),sizeof(double)*Ny);
+    memcpy(XX+(mfrows+1)*Ny,z5+(mlags-lag),sizeof(double)*Ny);
 
     //mdisplay(XX,mfrows+2,Ny);
     //mdisplay(y,1,Ny);
-- 
2.43.0


From 3c0bcf592462750d6e1aeef5bfec75b3b548764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 033/122] fix: OCSBtest() leaked its final regression and freed
 unset pointers

---
 src/seastest.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index c87c3d2..f9753f4 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -628,7 +628,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     int i, bestindex,allnans,maxlag;
     double *tval,*icvals;
     reg_object fit;
-    reg_object *list = (reg_object*)malloc(sizeof(reg_object)*mlags);
+    reg_object *list = (reg_object*)calloc(mlags > 0 ? mlags : 1,sizeof(reg_object));
     reg_object crit_reg = NULL;
 
     icvals = (double*) malloc(sizeof(double)*mlags);
@@ -679,6 +679,7 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
             printf("Could not find a solution. Try a different method. \n");
             exit(-1);
         } else {
+            free_reg(fit);
             fit = crit_reg;
         }
     }
@@ -691,13 +692,15 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
+    *critical = calcOCSBCritVal(f);
+    *statistics = tval[fit->p-1];
+
+    if (fit != crit_reg) free_reg(fit);
+
     for(i = 0; i < mlags;++i) {
 		free_reg(list[i]);
     }
 
-    *critical = calcOCSBCritVal(f);
-    *statistics = tval[fit->p-1];
-
     free(list);
     free(icvals);
     free(tval);
-- 
2.43.0


From d14494e0e3533c1d3e1565de4794c2d61132716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 034/122] fix: nsdiffs() tested differenced series too short
 for the test

---
 src/autoutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autoutils.c b/src/autoutils.c
index 45921a7..3c70119 100644
--- a/src/autoutils.c
+++ b/src/autoutils.c
@@ -225,7 +225,7 @@ int nsdiffs(double *x, int N,int f,double *alpha, const char *test, int *max_D)
 
         //printf("cc %d \n",cc);
 
-        if (cc == 1) break;
+        if (cc == 1 || D >= max_D_ || NX < 2*f) break;
 
         dodiff = runseasonalitytests(z,NX,f,test);
         memcpy(y,z,sizeof(double)*NX);
-- 
2.43.0


From d743e4b52cb9c80def57ed53485025a641a0d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 035/122] fix: decompose() subtracted the seasonal component
 out of phase and left its tail unset

---
 src/seastest.c | 116 ++++++++++++++++++++-----------------------------
 1 file changed, 47 insertions(+), 69 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index f9753f4..57ade9b 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -28,110 +28,88 @@ static void findMeans(double *x, int N, int stride, double *means) {
 }
 
 void decompose(double *x,int N, int f,double *filter, const char *type, double *trend, int *ltrend, double *seas, int *lseas, double *random, int *lrandom) {
-    int isOdd,i,j,f2,clen,batches;
-    double *filt,*cout,*detrend,*seasonalmeans;
-
-
-    isOdd = f%2;
+    /*
+    x - series of length N, f - period
+    filter - weights of the trend filter: f values if f is odd and f+1 if it is even. NULL selects the
+    centred moving average over one period.
+    type - "additive" or "multiplicative"
 
-    if (filter == NULL) {
-        filt = (double*) malloc(sizeof(double) * f);
-        for(i = 0; i < f;++i) {
-            filt[i] = 1.0 / (double) f;
-        }
-    } else {
-        filt = &filter[0];
-    }
+    trend, seas and random describe the observations x[f/2],...,x[N-1-f/2] and have the same length.
+    seas is periodic and averages to 0 (additive) or 1 (multiplicative) over a period.
+    */
+    int i,f2,flen,clen;
+    double avg;
+    double *filt,*detrend,*seasonalmeans;
 
-    if (!(strcmp(type,"additive") || strcmp(type,"multiplicative"))) {
+    if (strcmp(type,"additive") && strcmp(type,"multiplicative")) {
         printf("Type takes only either additive or multiplicative values \n");
         exit(-1);
     }
 
     f2 = f / 2;
-    clen = N - f + 1;
-
-    cout = (double*) malloc(sizeof(double) * clen);
+    flen = 2 * f2 + 1;
+    clen = N - flen + 1;
 
-    convolve("valid","direct",x,N,filt,f,cout);
-
-    //mdisplay(cout,1,clen);
+    if (f < 2 || clen < f) {
+        printf("Series is not periodic or has less than two periods. \n");
+        exit(-1);
+    }
 
-    if (!isOdd) {
-        clen--;
+    if (filter == NULL) {
+        filt = (double*) malloc(sizeof(double) * flen);
+        for(i = 0; i < flen;++i) {
+            filt[i] = 1.0 / (double) f;
+        }
+        if (f%2 == 0) {
+            filt[0] = filt[flen-1] = 0.5 / (double) f;
+        }
+    } else {
+        filt = &filter[0];
     }
 
+    convolve("valid","direct",x,N,filt,flen,trend);
+
     detrend = (double*) malloc(sizeof(double) * clen);
     seasonalmeans = (double*) malloc(sizeof(double) * f);
 
     if (!strcmp(type,"multiplicative")) {
-        for(i = f2; i < clen + f2;++i) {
-            detrend[i-f2] = x[i] / cout[i-f2];
+        for(i = 0; i < clen;++i) {
+            detrend[i] = x[i+f2] / trend[i];
         }
-    } else if (!strcmp(type,"additive")) {
-        for(i = f2; i < clen + f2;++i) {
-            detrend[i-f2] = x[i] - cout[i-f2];
+    } else {
+        for(i = 0; i < clen;++i) {
+            detrend[i] = x[i+f2] - trend[i];
         }
     }
 
-    //mdisplay(detrend,1,clen);
-
     findMeans(detrend,clen,f,seasonalmeans);
 
-    for(i = 0; i < f-f2;++i) {
-        seas[i] = seasonalmeans[f2+i];
-    }
-
-    for(i = f-f2; i < f;++i) {
-        seas[i] = seasonalmeans[i-f+f2];
-    }
-
-    batches = ceil((double) clen / (double) f);
-
-    for(i = 1; i < batches-1;++i) {
-        for(j = 0; j < f;++j) {
-            seas[i*f+j] =seas[j];
-        }
-    }
-    j = 0;
-    for( i = f*(batches-1); i < clen - f*(batches-1);++i) {
-        seas[i] = seas[j];
-        j++;
-    }
-
-    if (isOdd) {
-        *lseas = clen - 1;
-        *lrandom = clen - 1;
-    } else {
-        *lseas = clen;
-        *lrandom = clen;
+    avg = 0.0;
+    for(i = 0; i < f;++i) {
+        avg += seasonalmeans[i];
     }
-
-    memcpy(trend,cout,sizeof(double)*clen);
-    *ltrend = clen;
+    avg /= (double) f;
 
     if (!strcmp(type,"multiplicative")) {
-        for(i = f2; i < clen + f2;++i) {
-            random[i-f2] = x[i] / trend[i-f2];
-        }
         for(i = 0; i < clen;++i) {
-            random[i] = random[i] /seas[i];
-        }
-    } else if (!strcmp(type,"additive")) {
-        for(i = f2; i < clen + f2;++i) {
-            random[i-f2] = x[i] - trend[i-f2];
+            seas[i] = seasonalmeans[i%f] / avg;
+            random[i] = detrend[i] / seas[i];
         }
+    } else {
         for(i = 0; i < clen;++i) {
-            random[i] = random[i] - seas[i];
+            seas[i] = seasonalmeans[i%f] - avg;
+            random[i] = detrend[i] - seas[i];
         }
     }
 
+    *ltrend = clen;
+    *lseas = clen;
+    *lrandom = clen;
 
     if (filter == NULL) {
         free(filt);
     }
 
-    free(cout);
     free(detrend);
     free(seasonalmeans);
 }
-- 
2.43.0


From a1c67b40d66031fb11a8410b4bcab7cf35e1e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 036/122] fix: regression variances were differences of large
 sums of squares (negative, NaN)

---
 src/regression.c | 66 ++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/src/regression.c b/src/regression.c
index c27b46a..1cb68de 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -215,10 +215,10 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	intercept - 1 : include intercept term. 0 : No intercept term
 	*/
 	double *x, *xt, *seb, *xb;
-	double *xxt, *yxt, *temp1, *temp2, *bt, *xxt2;
+	double *xxt, *yxt, *xxt2;
 	int i, df;
 	int *ipiv;
-	double tmp1, sum, ym, ym2, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss;
+	double tmp1, sum, ym, tss, a2, ta2, intrvl, chia2, chi1a2, dfi, mss, rss;
 
 	/*
 	* Matrix Based Multiple Regression
@@ -235,10 +235,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	yxt = (double*)malloc(sizeof(double) * p);
 	ipiv = (int*)malloc(sizeof(int) * p);
 	//yt = (double*) malloc (sizeof(double) * N);
-	temp1 = (double*)calloc(1, sizeof(double));
-	temp2 = (double*)malloc(sizeof(double) * p);
 	seb = (double*)malloc(sizeof(double) * p);
-	bt = (double*)calloc(1, sizeof(double));
 
 	// Initalize xt matrix - Transpose Matrix is initilaized first to
 	// deal with column major nature of the X matrix
@@ -302,12 +299,21 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	//mtranspose(y,N,1,yt);
 	df = N - p;
-	mmult(y, y, bt, 1, N, 1);
-	mmult(xt, y, temp2, p, N, 1);
-	mmult(b, temp2, temp1, 1, p, 1);
+	//Residual
+	/* u = y - Xb
+	*/
+	mmult(x, b, xb, N, p, 1);
+
+	mss = 0.0;
+	rss = 0.0;
 
-	*sigma2 = *bt - *temp1;
-	*sigma2 /= (double)df;
+	for (i = 0; i < N; ++i) {
+		res[i] = y[i] - xb[i];
+		mss += (xb[i] * xb[i]);
+		rss += (res[i] * res[i]);
+	}
+
+	*sigma2 = rss / (double)df;
 	tmp1 = *sigma2;
 
 	// Variance-Covariance Matrix of beta parameters
@@ -325,9 +331,12 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 		sum += y[i];
 	}
 	ym = sum / N;
-	ym2 = ym * ym;
+	tss = 0.;
+	for (i = 0; i < N; ++i) {
+		tss += (y[i] - ym) * (y[i] - ym);
+	}
 
-	R2[0] = (*temp1 - N*ym2) / (*bt - N*ym2);
+	R2[0] = 1.0 - rss / tss;
 
 	// Adjusted r^2
 
@@ -358,24 +367,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	ci_lower[p] = (double)df * tmp1 / chi1a2;
 	ci_upper[p] = (double)df * tmp1 / chia2;
 
-	//Residual
-	/* u = y - Xb
-	*/
-	mmult(x, b, xb, N, p, 1);
-
-	for (i = 0; i < N; ++i) {
-		res[i] = y[i] - xb[i];
-	}
-
-
-	mss = 0.0;
-	rss = 0.0;
-
-	for (i = 0; i < N; ++i) {
-		mss += (xb[i] * xb[i]);
-		rss += (res[i] * res[i]);
-	}
-
 	// ANOVA
 
 	/*
@@ -393,16 +384,16 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 
 	if (intercept == 1) {
 		if (p == 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
-			anv[0] = anv[1] + anv[2];
+			anv[1] = tss - rss;
+			anv[2] = rss;
+			anv[0] = tss;
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
 		}
 		else if (p > 1) {
-			anv[1] = R2[0] * (*bt - N*ym2);
-			anv[2] = (1. - R2[0]) * (*bt - N*ym2);
-			anv[0] = anv[1] + anv[2];
+			anv[1] = tss - rss;
+			anv[2] = rss;
+			anv[0] = tss;
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
@@ -448,9 +439,6 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	free(xxt);
 	free(xxt2);
 	free(yxt);
-	free(temp1);
-	free(temp2);
-	free(bt);
 	free(seb);
 	free(xb);
 }
-- 
2.43.0


From befff797831e60b9012f39849ceca674279ca77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 037/122] fix: p-value of the F test without intercept used one
 degree of freedom too few

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 1cb68de..8c40538 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -419,7 +419,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[3] = (double)p;
 			anv[4] = (double)df;
 			anv[5] = (R2[0] / anv[3]) / ((1. - R2[0]) / anv[4]);
-			anv[6] = 1.0 - fcdf(anv[5], p - 1, df);
+			anv[6] = 1.0 - fcdf(anv[5], p, df);
 		}
 		else if (p == 0) {
 			anv[1] = mss;
-- 
2.43.0


From 30d6c813f76e8058d3a568f76a81e81d6da2b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 038/122] fix: intercept-only regressions reported
 uninitialised F statistics

---
 src/regression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/regression.c b/src/regression.c
index 8c40538..5a46265 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -35,6 +35,7 @@ reg_object reg_init(int N, int p) {
 	obj->r2 = obj->R2[0] = 0.0;
 	obj->r2adj = obj->R2[1] = 0.0;
 	obj->df = 0;
+	obj->rank = 0;
 	obj->intercept = (p == 0) ? 0 : 1;
 	strcpy(obj->lls, "qr");
 
@@ -389,6 +390,8 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			anv[0] = tss;
 			anv[3] = (double)p - dfi;
 			anv[4] = (double)df;
+			anv[5] = NAN;
+			anv[6] = NAN;
 		}
 		else if (p > 1) {
 			anv[1] = tss - rss;
-- 
2.43.0


From ba6c73c23abcc47398bab7b9e4acfa581947a311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 039/122] fix: regress_poly() truncated the powers to integers

---
 src/regression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 5a46265..30fe77c 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -628,7 +628,7 @@ void regress_poly(reg_object obj, double *x, double *y, double *res, double *var
 	sum = obj->N;
 	for (i = 1; i < polydeg; ++i) {
 		for (j = 0; j < obj->N; ++j) {
-			xx[sum + j] = (int)pow((double)x[j], (double)i + 1.);
+			xx[sum + j] = pow((double)x[j], (double)i + 1.);
 		}
 		sum += obj->N;
 	}
-- 
2.43.0


From 89acd57e03288f5a520538c4f5768b15071f1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 040/122] fix: psort_() truncated values to integers while
 sorting

---
 src/stl.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index af4d106..806135b 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -710,9 +710,8 @@ L300:
 int psort_(double *a, int n, int *ind, int ni)
 {
     int i__, j, k, l, m, p;
-    double t;
+    double t, tt;
     int ij, il[16], jl, iu[16], ju;
-    int tt;
     int indl[16], indu[16];
 
 
-- 
2.43.0


From 8b406c890538d9f5b345385c13db4dcbb99d4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:37 +0000
Subject: [PATCH 041/122] fix: robust STL asked for the middle order statistics
 in descending order and got an unsorted one

---
 src/stl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl.c b/src/stl.c
index 806135b..6f1b9d6 100644
--- a/src/stl.c
+++ b/src/stl.c
@@ -469,8 +469,8 @@ int stlrwt_(double *y, int *n, double *fit, double *rw)
 	rw[i__] = (d__1 = y[i__] - fit[i__], fabs(d__1));
 /* L7: */
     }
-    mid[0] = *n / 2 + 1;
-    mid[1] = *n - mid[0] + 1;
+    mid[1] = *n / 2 + 1;
+    mid[0] = *n - mid[1] + 1;
     psort_(&rw[1], *n, mid, c__2);
     cmad = (rw[mid[0]] + rw[mid[1]]) * 3.0;
 /*     = 6 * MAD */
-- 
2.43.0


From 0f97d4d5e8d17a60e41550b44956c895cf6539cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:57 +0000
Subject: [PATCH 042/122] fix: checkConstant() ignored the first observation

---
 src/boxcox.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boxcox.c b/src/boxcox.c
index ff8f106..75b45c8 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -8,7 +8,7 @@ int checkConstant(double *x, int N) {
 
     /// heap buffer overflow fix, since accessing x[i+1] need to 
     /// stop loop at -1 index from end of array as dictated by length defined by N
-    for(i = 1; i < N - 1;++i) {
+    for(i = 0; i < N - 1;++i) {
         diff = x[i+1] - x[i];
         if (fabs(diff) > 0) {
             return cc;
-- 
2.43.0


From 60a5573ea5442253a49db83daa9b997996ff4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:57 +0000
Subject: [PATCH 043/122] fix: boxcox() branched on an uninitialised flag
 instead of checking for negative values

---
 src/boxcox.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index 75b45c8..dbe3c10 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -111,6 +111,7 @@ double boxcox(double *x, int N,double *lambda,double *y) {
     }
 
     // Check for negative values
+    cn = checkNegative(x,N);
 
     if (cn == 1) {
         printf("Input vector cannot have negative values. Exiting. \n");
-- 
2.43.0


From b6538dbcaa55e58a4338bfed86f4c2195a0e1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 044/122] fix: differencing of order zero used uninitialised
 coefficients

---
 src/talg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/talg.c b/src/talg.c
index 0cd22f4..5218273 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -116,6 +116,7 @@ void deld(int d, double* C) {
 	vec[0] = 1.;
 	vec[1] = -1.;
 	oup[0] = 1.;
+	C[0] = 1.;
 	// oup has length (d+1)
 	
 	for(i = 0; i < d; ++i) {
@@ -153,6 +154,7 @@ void delds(int D, int s, double *C) {
 	vec[0] = 1.0;
 	vec[s] = -1.0;
 	oup[0] = 1.0;
+	C[0] = 1.0;
 	
 	for(i = 0; i < D; ++i) {
 		poly(oup,vec,C,i*s+1,s+1);
-- 
2.43.0


From 90427da6dd5d184489d1a74f0b8b6d5d0f801439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:15 +0000
Subject: [PATCH 045/122] fix: mase() leaked an unused work array

---
 src/errors.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/errors.c b/src/errors.c
index f3bd2e8..ea5ea9e 100644
--- a/src/errors.c
+++ b/src/errors.c
@@ -118,13 +118,10 @@ double mpe(double *predicted, double *actual, int N) {
 
 double mase(double *predicted, double *actual, int N, double *tseries, int length) {
     double err,temp,den;
-    double *dif;
     int i;
 
     // tseries : Only training values are included
 
-    dif = (double*)malloc(sizeof(double)* (N-1));
-
     temp = 0.0;
 
     for(i = 1; i < length;++i) {
-- 
2.43.0


From 98e11cb1f384c4f18d836de55984f8f18d93fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 046/122] fix: gradtrans() left entries unset and misplaced the
 MA block

---
 src/talg.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 5218273..2005547 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -675,9 +675,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 
 	for (i = 0; i < N; ++i) {
 		for (j = 0; j < N; ++j) {
-			if (i == j) {
-				A[i + j*N] = (double)i;
-			}
+			A[i + j*N] = (i == j) ? 1.0 : 0.0;
 		}
 	}
 
@@ -704,7 +702,7 @@ void gradtrans(double *raw, int p, int q, int P, int Q,int M, double *A) {
 			w1[i] += eps;
 			artrans(q, w1, w3);
 			for (j = 0; j < q; ++j) {
-				A[i + j*N + v] = (w3[j] - w2[j]) / eps;
+				A[i + (j + v)*N + v] = (w3[j] - w2[j]) / eps;
 			}
 			w1[i] -= eps;
 		}
-- 
2.43.0


From 77d0b5310af085dea18fc37ef875bf16a5889192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 047/122] fix: arma_autocovar() wrote p+1 values when fewer
 lags were requested

---
 src/talg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index 2005547..95fdb9b 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -430,7 +430,7 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 	ludecomp(A,p1,ipiv);
 	linsolve(A,p1,b,ipiv,tcov);
 	
-	for(i = 0; i < p1;++i) {
+	for(i = 0; i < p1 && i < lag;++i) {
 		acov[i] = tcov[i];
 	}
 	
-- 
2.43.0


From 1fd2e7a7378e615c30d1d1f157def92ce8849bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:36 +0000
Subject: [PATCH 048/122] fix: supsmu() read outside the data for wide spans
 and small samples

---
 src/talg.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index 95fdb9b..f56d8a3 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1255,6 +1255,9 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	ibw = 2;
     }
     it = (ibw << 1) + 1;
+    if (it > *n) {
+	it = *n;
+    }
     i__1 = it;
     for (i__ = 1; i__ <= i__1; ++i__) {
 	j = i__;
@@ -1509,8 +1512,8 @@ static int supsmu_(int *n, double *x, double *y, double *w, int *iper, double *s
     }
     return 0;
 L30:
-    i__ = *n / 4;
-    j = i__ * 3;
+    i__ = imax(1,*n / 4);
+    j = imin(*n,i__ * 3);
     scale = x[j] - x[i__];
 L40:
     if (scale > 0.f) {
-- 
2.43.0


From e77939e419a64f1cdd427a651902b477f9a2f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 049/122] fix: psd() read the series up to the padded length

---
 src/spectrum.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/spectrum.c b/src/spectrum.c
index 63985f7..341c838 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -59,7 +59,6 @@ void spectrum_shift(double* spec,int N) {
 
 void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,t,N2;
-	double m;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -68,7 +67,6 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < N;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
@@ -134,7 +132,7 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
 	int i,N,N2,NO;
-	double m,NP;
+	double NP;
 	fft_data *inp;
 	fft_data *oup;
 	
@@ -145,7 +143,6 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 	inp = (fft_data*) malloc (sizeof(fft_data) * N);
 	oup = (fft_data*) malloc (sizeof(fft_data) * N);
 	
-	m = mean(vec,N);
 	for (i = 0; i < NO;++i) {
 		inp[i].re = vec[i];
 		inp[i].im = 0.0;
-- 
2.43.0


From 6300363d62004ff2ffaf4747cdbc671b1a15d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 050/122] fix: spectral estimates and their object leaked work
 arrays and FFT objects

---
 src/spectrum.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spectrum.c b/src/spectrum.c
index 341c838..089036e 100644
--- a/src/spectrum.c
+++ b/src/spectrum.c
@@ -128,6 +128,8 @@ void periodogram(spectrum_fft_object obj,double* vec,double* spec, double *freq,
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int side) {
@@ -210,6 +212,8 @@ void psd(spectrum_fft_object obj,double* vec,double* spec, double *freq, int sid
 		}
 	}	
 
+	free(inp);
+	free(oup);
 }
 
 void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,int Nfft, int side) {
@@ -262,9 +266,15 @@ void psd_autocovar(auto_fft_object obj,double *vec,double* spec, double *freq,in
 	
 	free_fft(fobj);
 	free(acov);
+	free(inp);
+	free(oup);
 }
 
 void free_spectrum(spectrum_fft_object object) {
+	if (object->fobj2 != object->fobj) {
+		free_fft(object->fobj2);
+	}
+	free_fft(object->fobj);
 	free(object);
 }
 
-- 
2.43.0


From 81b88def3b6f123594d55e2f9d0b3ed4a955b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:33 +0000
Subject: [PATCH 051/122] fix: FFT butterflies of radix 3, 5 and 7 used
 constants of eleven digits

---
 src/hsfft.c | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/hsfft.c b/src/hsfft.c
index a163e33..f76e4dc 100644
--- a/src/hsfft.c
+++ b/src/hsfft.c
@@ -99,8 +99,8 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		tau0r = op[1].re + op[2].re;
 		tau0i = op[1].im + op[2].im;
 
-		tau1r = sgn * 0.86602540378 * (op[1].re - op[2].re);
-		tau1i = sgn * 0.86602540378 * (op[1].im - op[2].im);
+		tau1r = sgn * 0.866025403784438646764 * (op[1].re - op[2].re);
+		tau1i = sgn * 0.866025403784438646764 * (op[1].im - op[2].im);
 
 		tau2r = op[0].re - tau0r * 0.5000000000;
 		tau2i = op[0].im - tau0i * 0.5000000000;
@@ -175,10 +175,10 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		op[4].re = ip[4*l].re;
 		op[4].im = ip[4*l].im;
 
-		c1 = 0.30901699437;
-		c2 = -0.80901699437;
-		s1 = 0.95105651629;
-		s2 = 0.58778525229;
+		c1 = 0.309016994374947424102;
+		c2 = -0.809016994374947424102;
+		s1 = 0.951056516295153572116;
+		s2 = 0.587785252292473129169;
 
 		tau0r = op[1].re + op[4].re;
 		tau2r = op[1].re - op[4].re;
@@ -271,12 +271,12 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		op[6].re = ip[6*l].re;
 		op[6].im = ip[6*l].im;
 
-		c1 = 0.62348980185;
-		c2 = -0.22252093395;
-		c3 = -0.9009688679;
-		s1 = 0.78183148246;
-		s2 = 0.97492791218;
-		s3 = 0.43388373911;
+		c1 = 0.623489801858733530525;
+		c2 = -0.222520933956314404289;
+		c3 = -0.900968867902419126236;
+		s1 = 0.781831482468029808708;
+		s2 = 0.974927912181823607018;
+		s3 = 0.433883739117558120476;
 
 		tau0r = op[1].re + op[6].re;
 		tau3r = op[1].re - op[6].re;
@@ -573,8 +573,8 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 			tau0r = br + cr;
 			tau0i = bi + ci;
 
-			tau1r = sgn * 0.86602540378 * (br - cr);
-			tau1i = sgn * 0.86602540378 * (bi - ci);
+			tau1r = sgn * 0.866025403784438646764 * (br - cr);
+			tau1i = sgn * 0.866025403784438646764 * (bi - ci);
 
 			tau2r = ar - tau0r * 0.5000000000;
 			tau2i = ai - tau0i * 0.5000000000;
@@ -716,10 +716,10 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		//printf("%d \n",inc);
 		//mixed_radix3_dit_rec(op,ip,obj,sgn,ll,m);
 
-		c1 = 0.30901699437;
-		c2 = -0.80901699437;
-		s1 = 0.95105651629;
-		s2 = 0.58778525229;
+		c1 = 0.309016994374947424102;
+		c2 = -0.809016994374947424102;
+		s1 = 0.951056516295153572116;
+		s2 = 0.587785252292473129169;
 
 		tkm1 = m;
 		tkm2 = tkm1 + m;
@@ -906,12 +906,12 @@ static void mixed_radix_dit_rec(fft_data *op,fft_data *ip,const fft_object obj,
 		//printf("%d \n",inc);
 		//mixed_radix3_dit_rec(op,ip,obj,sgn,ll,m);
 
-		c1 = 0.62348980185;
-		c2 = -0.22252093395;
-		c3 = -0.9009688679;
-		s1 = 0.78183148246;
-		s2 = 0.97492791218;
-		s3 = 0.43388373911;
+		c1 = 0.623489801858733530525;
+		c2 = -0.222520933956314404289;
+		c3 = -0.900968867902419126236;
+		s1 = 0.781831482468029808708;
+		s2 = 0.974927912181823607018;
+		s3 = 0.433883739117558120476;
 
 		tkm1 = m;
 		tkm2 = tkm1 + m;
-- 
2.43.0


From 5bc6848350517e9e1846e025d952ef715e6e3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:16 +0000
Subject: [PATCH 052/122] fix: arma_autocovar() erased equations for AR orders
 above two and read past its right-hand side

---
 src/talg.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/talg.c b/src/talg.c
index f56d8a3..af93963 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -384,20 +384,14 @@ void arma_autocovar(double *phi,double *theta,int p,int q,double var,double* aco
 		th[i+1] = theta[i];
 	}
 	
-	if (p >= q+1) {
-		m = p;
-	} else {
-		m = q + 1;
-	}
+	m = (p >= q) ? p + 1 : q + 1;
 	thph = (double*) malloc(sizeof(double) * m);
 	// set A
 	for(i = 0; i < p1;++i) {
 		for(j=0; j < p1;++j) {
 			A[i*p1+j] = 0.;
-			if (i == j && i != 0) {
-				A[i*p1+j] = 1.;
-			}
-
+		}
+		for(j=0; j < p1;++j) {
 			t = i - j;
 			if (t < 0) {
 				t = -t;
-- 
2.43.0


From 68b06fd8e04e5ec4b89391e748a02aa55a195dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 053/122] fix: LU pivot search compared against signed values
 and could choose a zero pivot

---
 src/matrix.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 79eeb08..9faa1f0 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -900,7 +900,7 @@ static int pludecomp(double *A,int N,int *ipiv) {
 		mind = k;
 		for (j=k+1; j < N;++j) {
 			if (mval < fabs(A[j*N + k])) {
-				mval = A[j*N + k];
+				mval = fabs(A[j*N + k]);
 				mind = j;
 			}
 		}
@@ -953,7 +953,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
@@ -991,7 +991,7 @@ int rludecomp(double *A, int M, int N, int *ipiv) {
 			mind = k;
 			for (j = k + 1; j < M; ++j) {
 				if (mval < fabs(A[j*N + k])) {
-					mval = A[j*N + k];
+					mval = fabs(A[j*N + k]);
 					mind = j;
 				}
 			}
-- 
2.43.0


From 57b2fff88e151ab49a74d0f6ad49cade85afbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 054/122] fix: Householder reflector of a negative multiple of
 the first unit vector was not orthogonal

---
 src/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 9faa1f0..2f0c1c5 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1406,7 +1406,7 @@ static double house_1(double*x,int N,double *v) {
 	if (sigma[0] == 0. && x[0] >= 0.) {
 		beta = 0.;
 	} else if (sigma[0] == 0. && x[0] < 0.) {
-		beta = -2.;
+		beta = 2.;
 	}else {
 		mu = sqrt(sigma[0] + x[0] * x[0]);
 		
-- 
2.43.0


From 49bc5c292ea16e0bae6154383b14d94635eb4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 055/122] fix: house_2() did not annihilate vectors whose first
 entry is zero

---
 src/matrix.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 2f0c1c5..25ad849 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1451,8 +1451,6 @@ double house_2(double*x,int N,double *v) {
 		sgn = 1.0;
 	} else if (x[0] < 0.) {
 		sgn = -1.0;
-	} else if (x[0] == 0.) {
-		sgn = 0.;
 	}
 	
 	sc = sigma[0] * sgn;
-- 
2.43.0


From 5fd7a02c22149e6d2e82ba1f478b8dd9bf11a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 056/122] fix: blocked Cholesky ignored failure of its leading
 block

---
 src/matrix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/matrix.c b/src/matrix.c
index 25ad849..b8976c9 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2285,7 +2285,14 @@ static int rbcholu(double *A,int N, int stride, double *UB, double *UT) {
 		b = (double*) malloc(sizeof(double) * bs);
 		U12T = (double*) malloc(sizeof(double) * Nb * bs);
 		U12 = (double*) malloc(sizeof(double) * Nb * bs);
-		rcholu(A,bs,stride,UB); // U11
+		sc = rcholu(A,bs,stride,UB); // U11
+		if (sc == -1) {
+			free(x);
+			free(b);
+			free(U12T);
+			free(U12);
+			return -1;
+		}
 		
 		for (i =0; i < bs;++i) {
 			t = i *stride;
-- 
2.43.0


From f860e6035b8cd5bdd737a1e4e59b855e1ba328fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:05 +0000
Subject: [PATCH 057/122] fix: francisQR() leaked its work arrays and read past
 2x2 matrices

---
 src/matrix.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index b8976c9..178dbea 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1867,6 +1867,10 @@ void francisQR(double *A,int N) {
 	/*
 	 * Reference - Algorithm 7.5.1 Golub,van Loan Matrix Computations 3rd Edition
 	 */ 
+	if (N <= 2) {
+		return;
+	}
+
 	x = (double*) malloc(sizeof(double) * 3);
 	v = (double*) malloc(sizeof(double) * 3);
 	AT = (double*) malloc(sizeof(double) * 3 * N);
@@ -1881,9 +1885,6 @@ void francisQR(double *A,int N) {
 	x[0] = A[0]*A[0] + A[1]*A[N] - s*A[0] + t2;
 	x[1] = A[N]*(A[0] + A[N+1] - s);
 	x[2] = A[N] * A[N+N+1];
-	if (N <= 2) {
-		return;
-	}
 	
 	for (k = -1; k < N - 3;++k) {
 		
-- 
2.43.0


From 6b634d88f6cb95d017d6ba4c5e074d0912b7e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 058/122] fix: tinv() lost the sign of lower-tail quantiles;
 regression intervals were reversed above 1000 degrees of freedom

---
 src/pdist.c      | 2 +-
 src/regression.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 877eefb..a207793 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -183,7 +183,7 @@ double tinv(double p, int df) {
 		x = betainv(pmin,d2,0.5);
 		y = 1. - x;
 		
-		t = sqrt( (double) df * y / x);
+		t = sign * sqrt( (double) df * y / x);
 	}
 	
 	if ( p > 0. && p < 1. && df > 1000 ) {
diff --git a/src/regression.c b/src/regression.c
index 30fe77c..31cd084 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -158,7 +158,7 @@ void linreg_clrm(double *x, double *y, int N, double* b,
 	a2 = alpha / 2.;
 	df = N - 2; // Number of parameters = 2
 
-	ta2 = tinv(a2, df);
+	ta2 = -tinv(a2, df);
 	intrvl = ta2 * seb1;
 
 	ci_lower[0] = b[0] - intrvl;
@@ -352,7 +352,7 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 	for (i = 0; i < p; ++i) {
 		seb[i] = sqrt(xxti[i*(p + 1)]);
 
-		ta2 = tinv(a2, df);
+		ta2 = -tinv(a2, df);
 		intrvl = ta2 * seb[i];
 
 		ci_lower[i] = b[i] - intrvl;
-- 
2.43.0


From bf58fb100d0d6ae05f91e77522ac672ae17f7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 059/122] fix: tcdf() returned one half when t squared
 overflows

---
 src/pdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdist.c b/src/pdist.c
index a207793..5d3d8ba 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -93,7 +93,7 @@ double tcdf(double t, int df) {
 		oup = 1. - oup;
 	}
 	
-	if ( x == 0.) {
+	if ( t == 0.) {
 		oup = 0.5;
 	}
 	
-- 
2.43.0


From 9c81af9a24fe38f324496a28aec232ccf96de9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 060/122] fix: gammapdf() and chipdf() ended the process at
 zero

---
 src/pdist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 5d3d8ba..982a19e 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -297,9 +297,10 @@ double gammapdf(double x, double k, double th) {
 		oup = 0.0;
 	} else if (t == 0.0 && k == 1) {
 		oup = 1.0 / th;
+	} else if (k > 1) {
+		oup = 0.0;
 	} else {
-		printf("The Output is Complex and cannot be determined");
-		exit(1);
+		oup = XINFVAL;
 	}
 	
 	return oup;
-- 
2.43.0


From 134a653cf856c30283840740b7796387f24c6e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 061/122] fix: betapdf() and fpdf() at the ends of the range

---
 src/dist.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dist.c b/src/dist.c
index 0dfa448..86148ce 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -725,13 +725,21 @@ double betapdf(double x, double a , double b) {
 		exit(1);
 	} 
 	
-	if (a == 1. || x == 0.) {
+	if ((x == 0. && a > 1.) || (x == 1. && b > 1.)) {
+		return 0.;
+	}
+
+	if ((x == 0. && a < 1.) || (x == 1. && b < 1.)) {
+		return XINFVAL;
+	}
+
+	if (a == 1.) {
 		la = 0.;
 	} else {
 		la = (a - 1.) * log(x);
 	}
 	
-	if (b == 1. || x == 1.) {
+	if (b == 1.) {
 		lb = 0.;
 	} else {
 		lb = (b - 1.) * log(1. - x);
-- 
2.43.0


From 7ec64644168f23f6b1473cc4894008a113209cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 062/122] fix: factorial(0) recursed without end

---
 src/dist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dist.c b/src/dist.c
index 86148ce..61405cd 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -65,7 +65,7 @@ double recfact(double N) {
 
 	i = (int) N;
 
-	if (i == 1) {
+	if (i <= 1) {
 		return 1;
 	} else {
 		return N * recfact(N-1);
-- 
2.43.0


From f24256e3ab6ec702d5a7b18f3aebfacf77485470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 063/122] fix: erfcinv() was accurate to seven digits only
 below 0.0625

---
 src/erfunc.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/erfunc.c b/src/erfunc.c
index 7aee364..137d6b4 100644
--- a/src/erfunc.c
+++ b/src/erfunc.c
@@ -342,7 +342,14 @@ double erfcinv(double x) {
 	} else if (x == 2.) {
 		 oup = -xinf;
 	}
-	
+
+	// Halley's step, as in erfinv, where erfc can be evaluated
+
+	if (x < 0.0625 && x >= 1.0e-300) {
+		t = (x - erfc(oup)) / ( 2 / sqrt(pi) * exp(- pow(oup,2.0)));
+		oup -= t / ( 1 + t*oup);
+	}
+
 	return oup;
 	
 }
-- 
2.43.0


From 59fe87bddac1425243f234c356c4d3ce94b3506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 064/122] fix: svd_gr scales row transformations by the row's
 own N-l entries (it summed M-l entries, past the row and the matrix)

---
 src/lls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lls.c b/src/lls.c
index debe859..f5332a8 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -552,7 +552,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 
         if (i < M && i != N - 1) {
         	t = i *N;
-        	for(k = l; k < M;++k) {
+        	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
         	if (scale != 0.0) {
-- 
2.43.0


From 5a0f2459a0fb1e6c72b4165dbba1cf66e2cec424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 065/122] fix: the least squares kernels release all their
 workspace on every path

---
 src/lls.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lls.c b/src/lls.c
index f5332a8..fe23e34 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -30,6 +30,11 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 
 	sc = chol(C,N);
 	if (sc == -1) {
+		free(AT);
+		free(d);
+		free(C);
+		free(y);
+		free(CT);
 		return -1;
 	}
 
@@ -65,6 +70,7 @@ int lls_normal(double *A,double *b,int M,int N,double *x) {
 	free(d);
 	free(C);
 	free(y);
+	free(CT);
 	return retcode;
 }
 
@@ -352,6 +358,7 @@ void bidiag(double *A, int M, int N) {
 	free(x);
 	free(v);
 	free(AT);
+	free(w);
 
 }
 
@@ -471,6 +478,7 @@ void bidiag_orth(double *A, int M, int N,double *U,double *V) {
 	free(x);
 	free(v);
 	free(AT);
+	free(w);
 
 }
 
@@ -672,6 +680,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 				iter++;
 				if (iter > SVDMAXITER) {
 					printf("Convergence Not Achieved \n");
+					free(e);
 					return 15;
 				}
 
@@ -970,6 +979,7 @@ int svd_gr2(double *A,int M,int N,double *U,double *V,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -1228,6 +1238,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 			iter++;
 			if (iter > SVDMAXITER) {
 				printf("Convergence Not Achieved \n");
+				free(e);
 				return 15;
 			}
 
@@ -1421,6 +1432,10 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 
 	retcode = svd(Ai,M,N,U,V,q);;
 	if (retcode != 0) {
+		free(U);
+		free(V);
+		free(q);
+		free(C);
 		return retcode;
 	}
 
@@ -1442,6 +1457,7 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	free(U);
 	free(V);
 	free(q);
+	free(C);
 
 	return retcode;
 }
-- 
2.43.0


From 21b15fce2cf0a45b9a7be815015eb802e5b8c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 066/122] fix: bidiag_orth accumulates both orthogonal factors
 (V was never updated and U only partly)

---
 src/lls.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index fe23e34..2a0bfe4 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -416,21 +416,21 @@ void bidiag_orth(double *A, int M, int N,double *U,double *V) {
 		}
 
 
-		for (i=j; i < M; i++) {
+		for (i=0; i < M; i++) {
 			t = i * M;
-			u = (i-j) *(M-j);
+			u = i *(M-j);
 			for (k=j; k < M; k++) {
 				AT[u+k-j] = U[k+t];
 			}
 		}
 
-		mmult(AT,v,w,M-j,M-j,1);
-		scale(w,M-j,1,beta);
-		mmult(w,v,AT,M-j,1,M-j);
+		mmult(AT,v,w,M,M-j,1);
+		scale(w,M,1,beta);
+		mmult(w,v,AT,M,1,M-j);
 
-		for (i=j; i < M; i++) {
+		for (i=0; i < M; i++) {
 			t = i * M;
-			u = (i-j) *(M-j);
+			u = i *(M-j);
 			for (k=j; k < M; k++) {
 				U[k+t] -= AT[u+k-j];
 			}
@@ -463,6 +463,27 @@ void bidiag_orth(double *A, int M, int N,double *U,double *V) {
 					A[k+t] -= AT[u+k-j-1];
 				}
 			}
+
+			for (i=0; i < N; i++) {
+				t = i * N;
+				u = i *(N-j-1);
+				for (k=j+1; k < N; k++) {
+					AT[u+k-j-1] = V[k+t];
+				}
+			}
+
+			mmult(AT,v,w,N,N-j-1,1);
+			scale(w,N,1,beta);
+			mmult(w,v,AT,N,1,N-j-1);
+
+			for (i=0; i < N; i++) {
+				t = i * N;
+				u = i *(N-j-1);
+				for (k=j+1; k < N; k++) {
+					V[k+t] -= AT[u+k-j-1];
+				}
+			}
+
 			u = 1;
 			t = j*N;
 			for(i = j + 2; i < N;++i) {
-- 
2.43.0


From becc176016dc0fa821463585a319fab594debcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 067/122] fix: the SVD least squares solvers judge negligible
 singular values relative to the largest one (an absolute cut kept rounding
 noise of rank-deficient problems)

---
 src/lls.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index 2a0bfe4..83a360c 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -1374,7 +1374,7 @@ int minfit(double *AB,int M,int N,int P,double *q) {
 int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,P,mnmax,np,i,j,t,t2;
 	double *AB,*q,*V,*C;
-	double eps;
+	double eps,tol;
 
 	if (M > N) {
 		mnmax = M;
@@ -1406,6 +1406,14 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 
 	minfit(AB,M,N,P,q);
 
+	tol = 0.0;
+	for(i = 0; i < N;++i) {
+		if (q[i] > tol) {
+			tol = q[i];
+		}
+	}
+	tol *= eps * mnmax;
+
 	for(i = 0; i < N;++i) {
 		t = i * N;
 		t2 = i * np;
@@ -1417,7 +1425,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
@@ -1441,7 +1449,7 @@ int lls_svd2(double *Ai,double *bi,int M,int N,double *xo) {
 int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 	int retcode,i,j,t;
 	double *U,*V,*q,*C;
-	double eps;
+	double eps,tol;
 
 	U = (double*) malloc(sizeof(double) * M*N);
 	V = (double*) malloc(sizeof(double) * N*N);
@@ -1460,12 +1468,20 @@ int lls_svd(double *Ai,double *bi,int M,int N,double *xo) {
 		return retcode;
 	}
 
+	tol = 0.0;
+	for(i = 0; i < N;++i) {
+		if (q[i] > tol) {
+			tol = q[i];
+		}
+	}
+	tol *= eps * ((M > N) ? M : N);
+
 	mmult(bi,U,C,1,M,N);
 
 	for(i = 0; i < N;++i) {
 		t = i *N;
 		for(j = 0; j < N;++j) {
-			if (fabs(q[j]) > eps) {
+			if (fabs(q[j]) > tol) {
 				V[t+j] /= q[j];
 			} else {
 				V[t+j] = 0.0;
-- 
2.43.0


From f256b61396f300fba8bf145ff6e61e0392a6e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 068/122] fix: fcdf is 0 below zero (an F statistic rounded
 below zero ended the process inside regress)

---
 src/pdist.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pdist.c b/src/pdist.c
index 982a19e..17333e6 100644
--- a/src/pdist.c
+++ b/src/pdist.c
@@ -230,8 +230,7 @@ double fcdf(double x, int num,int den) {
 	}
 	
 	if (x < 0.) {
-		printf("The range of distribution only takes non-negative and real values");
-		exit(1);
+		return 0.;
 	}
 	
 	k1 = (double) num;
-- 
2.43.0


From a247223cd8d9ce8d5730a3680261f39c8f536ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 069/122] fix: the normal-equations regression falls back to QR
 when the Cholesky factorisation fails (coefficients were left uninitialised)

---
 src/regression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regression.c b/src/regression.c
index 31cd084..08067dc 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -282,7 +282,9 @@ void linreg_multi(int p, double *xi, double *y, int N, double* b, double *sigma2
 			*rank = lls_qr(xxt, yxt, p, p, b);
 		}
 		else if (!strcmp(llsmethod, "normal")) {
-			lls_normal(xxt, yxt, p, p, b);
+			if (lls_normal(xxt, yxt, p, p, b) != 0) {
+				lls_qr(xxt, yxt, p, p, b);
+			}
 			printf("Warning - This method will not calculate the rank of the regression. Use method qr instead. \n");
 		}
 		else if (!strcmp(llsmethod, "svd")) {
-- 
2.43.0


From f5cf29b074654695909697d5de58c9b5a901ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 070/122] fix: Householder vectors are computed from the scaled
 vector (tiny columns underflowed into non-orthogonal reflectors)

---
 src/matrix.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 178dbea..78e66dd 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -1386,38 +1386,45 @@ void eye_scale(double *mat, int N, double lambda) {
 }
 
 static double house_1(double*x,int N,double *v) {
-	double beta,mu,temp;
+	double beta,mu,temp,x0,xmax;
 	double *sigma;
 	int i;
 	
 	sigma = (double*) malloc(sizeof(double) * 1);
 	
-	if (N > 1) {
-		mmult(x+1,x+1,sigma,1,N-1,1);
-	} else {
-		sigma[0] = 0.0;
+	// The reflector does not depend on the length of x. Scaling avoids underflow.
+	xmax = array_max_abs(x,N);
+	if (!(xmax > 0.0)) {
+		xmax = 1.0;
 	}
-	
+	x0 = x[0] / xmax;
+
 	v[0] =1.;
 	for (i = 1; i < N;++i) {
-		v[i] = x[i];
+		v[i] = x[i] / xmax;
+	}
+
+	if (N > 1) {
+		mmult(v+1,v+1,sigma,1,N-1,1);
+	} else {
+		sigma[0] = 0.0;
 	}
 	
-	if (sigma[0] == 0. && x[0] >= 0.) {
+	if (sigma[0] == 0. && x0 >= 0.) {
 		beta = 0.;
-	} else if (sigma[0] == 0. && x[0] < 0.) {
+	} else if (sigma[0] == 0. && x0 < 0.) {
 		beta = 2.;
 	}else {
-		mu = sqrt(sigma[0] + x[0] * x[0]);
+		mu = sqrt(sigma[0] + x0 * x0);
 		
-		if (x[0] <= 0.) {
-			v[0] = x[0] - mu;
+		if (x0 <= 0.) {
+			v[0] = x0 - mu;
 		} else {
-			v[0] = - sigma[0] / (x[0] + mu);
+			v[0] = - sigma[0] / (x0 + mu);
 		}
 		temp = v[0];
 		
-		beta = (2.0 * v[0] * v[0]) /(sigma[0] + v[0] * v[0]);
+		beta = 2.0 / (1.0 + (sigma[0] / v[0]) / v[0]);
 		
 		for (i = 0; i < N;++i) {
 			v[i] /= temp;
-- 
2.43.0


From 23b86ac4fcf8dd9a760316c3f2449df660096d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 071/122] fix: the SVD kernels treat underflowed rows and
 columns as zero and do not divide by an underflowed product (rank-one
 matrices gave NaN)

---
 src/lls.c    | 7 +++----
 src/matrix.c | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lls.c b/src/lls.c
index 83a360c..a5768f0 100644
--- a/src/lls.c
+++ b/src/lls.c
@@ -542,7 +542,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 				scale += fabs(U[k*N+i]);
 			}
 
-			if (scale != 0.0) {
+			if (scale > DBL_MIN / eps) {
 				for(k = i; k < M;++k) {
 					t = k * N;
 					U[t+i] /= scale;
@@ -584,7 +584,7 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
         	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
-        	if (scale != 0.0) {
+        	if (scale > DBL_MIN / eps) {
         		for(k = l; k < N;++k) {
         			U[t+k] /= scale;
         			temp = U[t+k];
@@ -627,9 +627,8 @@ int svd_gr(double *A,int M,int N,double *U,double *V,double *q) {
 			t = i * N;
 			if (i < N - 1) {
 				if (g != 0.0) {
-					h = U[t+i+1] * g;
 					for(j = l;j < N;++j) {
-						V[j*N+i] = U[t+j] / h;
+						V[j*N+i] = (U[t+j] / U[t+i+1]) / g;
 					}
 					for(j = l;j < N;++j) {
 						s = 0.0;
diff --git a/src/matrix.c b/src/matrix.c
index 78e66dd..7676c46 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -2579,7 +2579,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 				scale += fabs(U[k*N+i]);
 			}
 
-			if (scale != 0.0) {
+			if (scale > DBL_MIN / eps) {
 				for(k = i; k < M;++k) {
 					t = k * N;
 					U[t+i] /= scale;
@@ -2621,7 +2621,7 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
         	for(k = l; k < N;++k) {
         		scale += fabs(U[t+k]);
         	}
-        	if (scale != 0.0) {
+        	if (scale > DBL_MIN / eps) {
         		for(k = l; k < N;++k) {
         			U[t+k] /= scale;
         			temp = U[t+k];
@@ -2747,9 +2747,8 @@ int svd(double *A,int M,int N,double *U,double *V,double *q) {
 		t = i * N;
 		if (i < N - 1) {
 			if (g != 0.0) {
-				h = U[t+i+1] * g;
 				for(j = l;j < N;++j) {
-					V[j*N+i] = U[t+j] / h;
+					V[j*N+i] = (U[t+j] / U[t+i+1]) / g;
 				}
 				for(j = l;j < N;++j) {
 					s = 0.0;
-- 
2.43.0


From d414214f4d065cb3507395dc99f3f568cd523e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 072/122] fix: hessian_fd leaves no entry uninitialised when
 the objective cannot be evaluated (the covariance matrix was computed from
 heap garbage)

---
 src/newtonmin.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/newtonmin.c b/src/newtonmin.c
index 6943d1e..9cc639a 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -298,6 +298,10 @@ int hessian_fd(custom_function *funcpt,double *x,int N,double *dx,double eps,dou
 	
 	retval = 0;
 
+	for(i = 0; i < N*N;++i) {
+		f[i] = NAN;
+	}
+
 	fd = pow((double) eps,1.0/3.0);
 	xi = (double*) malloc(sizeof(double) *N);
 	xj = (double*) malloc(sizeof(double) *N);
-- 
2.43.0


From c0d37539218e7663926b9e36d233ace61946e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 073/122] fix: ibeta returns NaN for NaN arguments instead of
 an uninitialised value

---
 src/dist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dist.c b/src/dist.c
index 61405cd..d10238c 100644
--- a/src/dist.c
+++ b/src/dist.c
@@ -657,6 +657,7 @@ double ibeta(double x, double a , double b) {
 	}
 	
 	ctrlint = 0;
+	oup = x + a + b; // NaN arguments fall through both branches
 	
 	// Method 1
 	
-- 
2.43.0


From fec6c1dc1d24e1693829f32e4b0f3a11a97dbb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:21 +0000
Subject: [PATCH 074/122] fix: polyroot keeps the Cauchy bound's starting point
 above the bound (x^n - c failed for n > 18)

---
 src/polyroot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polyroot.c b/src/polyroot.c
index ad89667..97fd5c6 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -141,6 +141,7 @@ static double CAUCHY(int NN, double *PT, double *Q) {
         for (i = 1; i < NN; ++i) {
             F = F*XM + PT[i];
         }
+        if (F <= 0.0) break; // X is now the last point with a positive value
         X = XM;
         XM *= 0.1; // Reduce XM for the next iteration
         iterations++; // Increment the iteration counter
-- 
2.43.0


From 69d578102959ed9ee124993550f86faab0b125b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 075/122] fix: size the polynomial root workspaces by the
 degree (heap overflow above degree 99)

---
 src/polyroot.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/polyroot.c b/src/polyroot.c
index 97fd5c6..1e8b44f 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -482,16 +482,16 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	int NN,CNT1,CNT2,IDNN2,i;
 	double prt, pit;
 
-	PR = (double*)malloc(sizeof(double)* 100);
-	PI = (double*)malloc(sizeof(double)* 100);
-	HR = (double*)malloc(sizeof(double)* 100);
-	HI = (double*)malloc(sizeof(double)* 100);
-	QPR = (double*)malloc(sizeof(double)* 100);
-	QPI = (double*)malloc(sizeof(double)* 100);
-	QHR = (double*)malloc(sizeof(double)* 100);
-	QHI = (double*)malloc(sizeof(double)* 100);
-	SHR = (double*)malloc(sizeof(double)* 100);
-	SHI = (double*)malloc(sizeof(double)* 100);
+	PR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	PI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	HR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	HI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QPR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QPI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QHR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	QHI = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	SHR = (double*)malloc(sizeof(double)* (DEGREE + 1));
+	SHI = (double*)malloc(sizeof(double)* (DEGREE + 1));
 
 	mcon(&ETA, &INFIN, &SMALNO, &BASE);
 
-- 
2.43.0


From d55f52521b437a2a1fdc99a5fe92858fffe9a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 076/122] fix: polyroot of c x^n read past its coefficients and
 returned a garbage root

---
 src/polyroot.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polyroot.c b/src/polyroot.c
index 1e8b44f..b0cb1c5 100644
--- a/src/polyroot.c
+++ b/src/polyroot.c
@@ -542,9 +542,11 @@ int cpoly(double *OPR, double *OPI, int DEGREE, double *ZEROR, double *ZEROI) {
 	}
 
 	NNITER: if (NN <= 2) {
+				if (NN == 2) {
 				prt = -1.0 * PR[1];
 				pit = -1.0 * PI[1];
 				CDIVID(&prt, &pit, &PR[0], &PI[0], INFIN, &ZEROR[DEGREE - 1], &ZEROI[DEGREE - 1]);
+				} // NN == 1: every root is at the origin
 				free(PR);
 				free(PI);
 				free(HR);
-- 
2.43.0


From c341cf854889a31a53cc62b8a70246931512a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 077/122] fix: inv_boxcox_eval returns lambda like boxcox does
 (its declared result was never set)

---
 src/boxcox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/boxcox.c b/src/boxcox.c
index dbe3c10..b86e958 100644
--- a/src/boxcox.c
+++ b/src/boxcox.c
@@ -65,6 +65,8 @@ double inv_boxcox_eval(double *x,int N, double lambda,double *bxcx) {
             bxcx[i] = exp(log1p(lambda * x[i])/lambda);
         }
     }
+
+    return lambda;
 }
 
 double boxcox_loglik(double lambda, void *params) {
-- 
2.43.0


From e3e2025cfc42e74a7250cefa6ff78bd24749a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 078/122] fix: supsmu wraps a periodic window's index before
 reading the abscissa

---
 src/talg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index af93963..d407bcd 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -1258,8 +1258,8 @@ static int smooth_(int *n, double *x, double *y, double *w, double *span, int *i
 	if (jper == 2) {
 	    j = i__ - ibw - 1;
 	}
-	xti = x[j];
 	if (j >= 1) {
+	    xti = x[j];
 	    goto L10;
 	}
 	j = *n + j;
-- 
2.43.0


From f552e88bc5be80690823f53a51ca741eb94ff3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 079/122] fix: the minimisers start at the caller's point
 (typical values other than one multiplied it) and leave the scale array alone

---
 src/conjgrad.c  |  2 --
 src/newtonmin.c |  4 ----
 src/optimc.c    | 11 ++++++++---
 src/secant.c    |  7 -------
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/conjgrad.c b/src/conjgrad.c
index 83f35e6..ee1a28b 100644
--- a/src/conjgrad.c
+++ b/src/conjgrad.c
@@ -285,7 +285,6 @@ int conjgrad_min_lin(custom_function *funcpt, custom_gradient *funcgrad, double
 	 */ 
 
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
@@ -294,7 +293,6 @@ int conjgrad_min_lin(custom_function *funcpt, custom_gradient *funcgrad, double
 	rcode = cgpr_mt(funcpt,funcgrad,xi,N,dx,maxstep,MAXITER,niter,eps,gtol,ftol,xtol,xf);//PR+
 
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
diff --git a/src/newtonmin.c b/src/newtonmin.c
index 9cc639a..16b955b 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -1291,7 +1291,6 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	//stol = gtol * gtol;
 	//set values
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -1412,7 +1411,6 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
@@ -1817,7 +1815,6 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	ioval[0] = delta;
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -1945,7 +1942,6 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
diff --git a/src/optimc.c b/src/optimc.c
index b4b3e59..395f39a 100644
--- a/src/optimc.c
+++ b/src/optimc.c
@@ -283,6 +283,7 @@ int fminnewt(custom_function *funcpt, custom_gradient *funcgrad, int N, double *
 	int retval;
 	int MAXITER,niter;
 	double eps,gtol,stol;
+	double *scale;
 	/*
 
 	 * Method 1 - Newton Line Search
@@ -320,32 +321,36 @@ int fminnewt(custom_function *funcpt, custom_gradient *funcgrad, int N, double *
 
 	eps = macheps(); // Use macheps program
 
+	scale = (double*) malloc(sizeof(double) * N); // the optimizers invert it in place
+	memcpy(scale,dx,sizeof(double)*N);
+
 	if (method == 1) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_func(funcpt,funcgrad,xi,N,dx,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_func(funcpt,funcgrad,xi,N,scale,fsval,maxstep,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 2) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,xi,N,scale,fsval,delta,0,MAXITER,&niter,eps,gtol,stol,xf);
 	} else if (method == 3) {
 		gtol = pow(eps,1.0/3.0);
 		stol = gtol * gtol;
 		if (MAXITER < 1000) {
 			MAXITER = 1000;
 		}
-		retval = newton_min_trust(funcpt,funcgrad,xi,N,dx,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
+		retval = newton_min_trust(funcpt,funcgrad,xi,N,scale,fsval,delta,1,MAXITER,&niter,eps,gtol,stol,xf);
 	} else {
 		printf("Method Value should be one of 1,2 or 3. See Documentation. \n");
 		exit(1);
 	}
 
+	free(scale);
 
 	return retval;
 }
diff --git a/src/secant.c b/src/secant.c
index 6a0723b..75d94aa 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -188,7 +188,6 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	gfdcode = 0;
 	//set values
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt,xi,N);
@@ -459,7 +458,6 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 
 	//set values
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -572,7 +570,6 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 	}
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
@@ -626,7 +623,6 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 
 	//set values
 	for (i = 0; i < N; ++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -733,7 +729,6 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 	}
 
 	for (i = 0; i < N; ++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 
@@ -904,7 +899,6 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 	
 	//set values
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	fx = FUNCPT_EVAL(funcpt, xi, N);
@@ -1054,7 +1048,6 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 	}
 	
 	for(i = 0; i < N;++i) {
-		xi[i] *= dx[i];
 		dx[i] = 1.0 / dx[i];
 	}
 	
-- 
2.43.0


From 5b911b7edd1987ccde93daa011954812d73863d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 080/122] fix: lmder and lmdif release their workspace when
 they reject the input

---
 src/nls.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/nls.c b/src/nls.c
index 6278e22..6eba971 100644
--- a/src/nls.c
+++ b/src/nls.c
@@ -806,11 +806,19 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1);
+    	free(wa2);
+    	free(wa3);
+    	free(wa4);
     	return info;
     }
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1);
+				free(wa2);
+				free(wa3);
+				free(wa4);
 				return info;
 			}
 		}
@@ -1216,12 +1224,20 @@ c         the first n elements of the vector (q transpose)*fvec.
     *njev = 0;
 
     if (N <= 0 || M < N || ldfjac < M || ftol < zero || xtol < zero || gtol < zero || maxfev <= 0 || factor <= zero) {
+    	free(wa1);
+    	free(wa2);
+    	free(wa3);
+    	free(wa4);
     	return info;
     }
 
     if (mode == 2) {
 		for(j = 0; j < N;++j) {
 			if (diag[j] <= 0.0) {
+				free(wa1);
+				free(wa2);
+				free(wa3);
+				free(wa4);
 				return info;
 			}
 		}
-- 
2.43.0


From a940eaa3c0d821e25d654682cfd7d9cb00e3bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 081/122] fix: nls_init sets retval (nlssummary before a fit
 printed garbage)

---
 src/optimc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimc.c b/src/optimc.c
index 395f39a..9623ead 100644
--- a/src/optimc.c
+++ b/src/optimc.c
@@ -101,6 +101,7 @@ nls_object nls_init(int M,int N) {
 	}
 
 	obj->Iter = 0;
+	obj->retval = 0;
 	for (i = 0; i < N;++i) {
 		obj->xopt[i] = 0.0;
 	}
-- 
2.43.0


From 7c2a19fe8e1fd1eaac3b2bd46479913a2e864877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 082/122] fix: wavelet transforms wrap and mirror the signal as
 often as the filter needs (filters longer than a level read outside it; swt
 ran off the filter)

---
 src/wavelib.c | 211 ++++----------------------------------------------
 src/wtmath.c  | 159 ++++++++++---------------------------
 2 files changed, 56 insertions(+), 314 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index cddc3cb..d8ff815 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -299,114 +299,14 @@ static void dwt_per(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_per(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
-
-	len_avg = wt->wave->lpd_len;
-	l2 = len_avg / 2;
-	isodd = N % 2;
-
-	for (i = 0; i < len_cA; ++i) {
-		t = 2 * i + l2;
-		cA[i] = 0.0;
-		cD[i] = 0.0;
-		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-
-		}
-	}
-
 
+	dwt_per_stride(inp,N,wt->wave->lpd,wt->wave->hpd,wt->wave->lpd_len,cA,len_cA,cD,1,1);
 
 }
 
 static void dwpt_per(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int l, l2, isodd, i, t, len_avg;
-
-	len_avg = wt->wave->lpd_len;
-	l2 = len_avg / 2;
-	isodd = N % 2;
-
-	for (i = 0; i < len_cA; ++i) {
-		t = 2 * i + l2;
-		cA[i] = 0.0;
-		cD[i] = 0.0;
-		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l + N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l + N];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l + N + 1];
-					cD[i] += wt->wave->hpd[l] * inp[t - l + N + 1];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l - N];
-				cD[i] += wt->wave->hpd[l] * inp[t - l - N];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				if (t - l != N) {
-					cA[i] += wt->wave->lpd[l] * inp[t - l - (N + 1)];
-					cD[i] += wt->wave->hpd[l] * inp[t - l - (N + 1)];
-				}
-				else {
-					cA[i] += wt->wave->lpd[l] * inp[N - 1];
-					cD[i] += wt->wave->hpd[l] * inp[N - 1];
-				}
-			}
-
-		}
-	}
-
 
+	dwt_per_stride(inp,N,wt->wave->lpd,wt->wave->hpd,wt->wave->lpd_len,cA,len_cA,cD,1,1);
 
 }
 
@@ -416,60 +316,14 @@ static void dwt_sym(wt_object wt, double *inp, int N, double *cA, int len_cA, do
 }
 
 static void wtree_sym(wtree_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
-
-	len_avg = wt->wave->lpd_len;
-
-	for (i = 0; i < len_cA; ++i) {
-		t = 2 * i + 1;
-		cA[i] = 0.0;
-		cD[i] = 0.0;
-		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
-
-		}
-	}
 
+	dwt_sym_stride(inp,N,wt->wave->lpd,wt->wave->hpd,wt->wave->lpd_len,cA,len_cA,cD,1,1);
 
 }
 
 static void dwpt_sym(wpt_object wt, double *inp, int N, double *cA, int len_cA, double *cD) {
-	int i, l, t, len_avg;
-
-	len_avg = wt->wave->lpd_len;
-
-	for (i = 0; i < len_cA; ++i) {
-		t = 2 * i + 1;
-		cA[i] = 0.0;
-		cD[i] = 0.0;
-		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				cA[i] += wt->wave->lpd[l] * inp[t - l];
-				cD[i] += wt->wave->hpd[l] * inp[t - l];
-			}
-			else if ((t - l) < 0) {
-				cA[i] += wt->wave->lpd[l] * inp[-t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[-t + l - 1];
-			}
-			else if ((t - l) >= N) {
-				cA[i] += wt->wave->lpd[l] * inp[2 * N - t + l - 1];
-				cD[i] += wt->wave->hpd[l] * inp[2 * N - t + l - 1];
-			}
-
-		}
-	}
 
+	dwt_sym_stride(inp,N,wt->wave->lpd,wt->wave->hpd,wt->wave->lpd_len,cA,len_cA,cD,1,1);
 
 }
 
@@ -558,8 +412,8 @@ void dwt(wt_object wt,const double *inp) {
 	wt->length[J + 1] = temp_len;
 	wt->outlength = 0;
 	wt->zpad = 0;
-	orig = (double*)malloc(sizeof(double)* temp_len);
-	orig2 = (double*)malloc(sizeof(double)* temp_len);
+	orig = (double*)malloc(sizeof(double)* (temp_len + wt->wave->lpd_len));
+	orig2 = (double*)malloc(sizeof(double)* (temp_len + wt->wave->lpd_len));
 	/*
 	if ((temp_len % 2) == 0) {
 	wt->zpad = 0;
@@ -670,7 +524,7 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 
 	int i, j, k, det_len, N, l, m, n, v, t, l2;
 	double *out, *X_lp, *filt;
-	out = (double*)malloc(sizeof(double)* (siglength + 1));
+	out = (double*)malloc(sizeof(double)* (siglength + lf));
 	l2 = lf / 2;
 	m = -2;
 	n = -1;
@@ -709,18 +563,12 @@ static void getDWTRecCoeff(double *coeff, int *length, const char *ctype, const
 				X_lp[n] = 0.0;
 				for (l = 0; l < l2; ++l) {
 					t = 2 * l;
-					if ((i - l) >= 0 && (i - l) < det_len) {
-						X_lp[m] += filt[t] * out[i - l];
-						X_lp[n] += filt[t + 1] * out[i - l];
-					}
-					else if ((i - l) >= det_len && (i - l) < det_len + lf - 1) {
-						X_lp[m] += filt[t] * out[i - l - det_len];
-						X_lp[n] += filt[t + 1] * out[i - l - det_len];
-					}
-					else if ((i - l) < 0 && (i - l) > -l2) {
-						X_lp[m] += filt[t] * out[det_len + i - l];
-						X_lp[n] += filt[t + 1] * out[det_len + i - l];
+					v = (i - l) % det_len;
+					if (v < 0) {
+						v += det_len;
 					}
+					X_lp[m] += filt[t] * out[v];
+					X_lp[n] += filt[t + 1] * out[v];
 				}
 			}
 
@@ -1387,7 +1235,7 @@ void idwt(wt_object wt, double *dwtop) {
 	J = wt->J;
 	U = 2;
 	app_len = wt->length[0];
-	out = (double*)malloc(sizeof(double)* (wt->siglength + 1));
+	out = (double*)malloc(sizeof(double)* (wt->siglength + wt->wave->lpr_len));
 	if (!strcmp(wt->ext, "per") && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
 		app_len = wt->length[0];
 		det_len = wt->length[1];
@@ -1483,7 +1331,7 @@ void idwt(wt_object wt, double *dwtop) {
 	else if (!strcmp(wt->ext, "sym") && (!strcmp(wt->cmethod, "fft") || !strcmp(wt->cmethod, "FFT"))) {
 		lf = wt->wave->lpd_len;// lpd and hpd have the same length
 
-		N = 2 * wt->length[J] - 1;
+		N = 2 * (wt->length[J] + lf) - 1;
 		cA_up = (double*)malloc(sizeof(double)* N);
 		X_lp = (double*)malloc(sizeof(double)* (N + lf - 1));
 		X_hp = (double*)malloc(sizeof(double)* (N + lf - 1));
@@ -1543,34 +1391,9 @@ void idwt(wt_object wt, double *dwtop) {
 }
 
 static void idwpt_per(wpt_object wt, double *cA, int len_cA, double *cD, double *X) {
-	int len_avg, i, l, m, n, t, l2;
 
-	len_avg = (wt->wave->lpr_len + wt->wave->hpr_len) / 2;
-	l2 = len_avg / 2;
-	m = -2;
-	n = -1;
+	idwt_per_stride(cA,len_cA,cD,wt->wave->lpr,wt->wave->hpr,wt->wave->lpr_len,X,1,1);
 
-	for (i = 0; i < len_cA + l2 - 1; ++i) {
-		m += 2;
-		n += 2;
-		X[m] = 0.0;
-		X[n] = 0.0;
-		for (l = 0; l < l2; ++l) {
-			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				X[m] += wt->wave->lpr[t] * cA[i - l] + wt->wave->hpr[t] * cD[i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l] + wt->wave->hpr[t + 1] * cD[i - l];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				X[m] += wt->wave->lpr[t] * cA[i - l - len_cA] + wt->wave->hpr[t] * cD[i - l - len_cA];
-				X[n] += wt->wave->lpr[t + 1] * cA[i - l - len_cA] + wt->wave->hpr[t + 1] * cD[i - l - len_cA];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				X[m] += wt->wave->lpr[t] * cA[len_cA + i - l] + wt->wave->hpr[t] * cD[len_cA + i - l];
-				X[n] += wt->wave->lpr[t + 1] * cA[len_cA + i - l] + wt->wave->hpr[t + 1] * cD[len_cA + i - l];
-			}
-		}
-	}
 }
 
 static void idwpt_sym(wpt_object wt, double *cA, int len_cA, double *cD, double *X) {
@@ -1610,8 +1433,8 @@ void idwpt(wpt_object wt, double *dwtop) {
 
 	X_lp = (double*)malloc(sizeof(double)* 2 * (wt->length[J] + lf));
 	X = (double*)malloc(sizeof(double)* xlen);
-	out = (double*)malloc(sizeof(double)* wt->length[J]);
-	out2 = (double*)malloc(sizeof(double)* wt->length[J]);
+	out = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
+	out2 = (double*)malloc(sizeof(double)* (wt->length[J] + lf));
 	prep = (int*)malloc(sizeof(int)* p);
 	ptemp = (int*)malloc(sizeof(int)* p);
 	n1 = 1;
diff --git a/src/wtmath.c b/src/wtmath.c
index 6566ea8..010262a 100644
--- a/src/wtmath.c
+++ b/src/wtmath.c
@@ -4,12 +4,31 @@ Copyright (c) 2018, Rafat Hussain
 */
 #include "wtmath.h"
 
+// Index of sample t of a signal of length N extended periodically (an odd signal repeats its last sample)
+static int per_index(int t, int N) {
+	int P = N + (N % 2);
+	t %= P;
+	if (t < 0) {
+		t += P;
+	}
+	return t < N ? t : N - 1;
+}
+
+// Index of sample t of a signal of length N extended symmetrically (half point)
+static int symm_index(int t, int N) {
+	int P = 2 * N;
+	t %= P;
+	if (t < 0) {
+		t += P;
+	}
+	return t < N ? t : P - 1 - t;
+}
+
 void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg,is,os;
+	int l, l2, i, t, len_avg,is,os;
 
 	len_avg = lpd_len;
 	l2 = len_avg / 2;
-	isodd = N % 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = 2 * i + l2;
@@ -17,51 +36,9 @@ void dwt_per_stride(double *inp, int N, double *lpd,double*hpd,int lpd_len,doubl
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= l2 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < l2 && (t - l) >= 0) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 0) {
-				is = (t - l + N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0 && isodd == 1) {
-				if ((t - l) != -1) {
-					is = (t - l + N + 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
-			else if ((t - l) >= N && isodd == 0) {
-				is = (t - l - N) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N && isodd == 1) {
-				is = (t - l - (N + 1)) * istride;
-				if (t - l != N) {
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1) * istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-			}
-
+			is = per_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 		
 	}
@@ -79,22 +56,9 @@ void dwt_sym_stride(double *inp, int N, double *lpd, double*hpd, int lpd_len, do
 		cA[os] = 0.0;
 		cD[os] = 0.0;
 		for (l = 0; l < len_avg; ++l) {
-			if ((t - l) >= 0 && (t - l) < N) {
-				is = (t - l) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) < 0) {
-				is = (-t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - l) >= N) {
-				is = (2 * N - t + l - 1) * istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-
+			is = symm_index(t - l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 	}
 
@@ -132,56 +96,19 @@ void modwt_per_stride(int M, double *inp, int N, double *filt, int lpd_len, doub
 }
 
 void swt_per_stride(int M, double *inp, int N, double *lpd, double*hpd, int lpd_len, double *cA, int len_cA, double *cD, int istride, int ostride) {
-	int l, l2, isodd, i, t, len_avg, j;
+	int l, l2, i, t;
 	int is, os;
-	len_avg = M * lpd_len;
-	l2 = len_avg / 2;
-	isodd = N % 2;
+	l2 = M * lpd_len / 2;
 
 	for (i = 0; i < len_cA; ++i) {
 		t = i + l2;
 		os = i *ostride;
 		cA[os] = 0.0;
 		cD[os] = 0.0;
-		l = -1;
-		for (j = 0; j < len_avg; j += M) {
-			l++;
-			while (j >= len_cA) {
-				j -= len_cA;
-			}
-			if ((t - j) >= l2 && (t - j) < N) {
-				is = (t - j)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) < l2 && (t - j) >= 0) {
-				is = (t - j)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) < 0) {
-				is = (t - j + N)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) >= N && isodd == 0) {
-				is = (t - j - N)*istride;
-				cA[os] += lpd[l] * inp[is];
-				cD[os] += hpd[l] * inp[is];
-			}
-			else if ((t - j) >= N && isodd == 1) {
-				if (t - l != N) {
-					is = (t - j - (N + 1))*istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[is];
-				}
-				else {
-					is = (N - 1)*istride;
-					cA[os] += lpd[l] * inp[is];
-					cD[os] += hpd[l] * inp[N - 1];
-				}
-			}
-
+		for (l = 0; l < lpd_len; ++l) {
+			is = per_index(t - M * l, N) * istride;
+			cA[os] += lpd[l] * inp[is];
+			cD[os] += hpd[l] * inp[is];
 		}
 	}
 
@@ -205,21 +132,13 @@ void idwt_per_stride(double *cA, int len_cA, double *cD, double *lpr, double *hp
 		X[ns] = 0.0;
 		for (l = 0; l < l2; ++l) {
 			t = 2 * l;
-			if ((i - l) >= 0 && (i - l) < len_cA) {
-				is = (i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) >= len_cA && (i - l) < len_cA + len_avg - 1) {
-				is = (i - l - len_cA) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
-			}
-			else if ((i - l) < 0 && (i - l) > -l2) {
-				is = (len_cA + i - l) * istride;
-				X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
-				X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
+			is = (i - l) % len_cA;
+			if (is < 0) {
+				is += len_cA;
 			}
+			is *= istride;
+			X[ms] += lpr[t] * cA[is] + hpr[t] * cD[is];
+			X[ns] += lpr[t + 1] * cA[is] + hpr[t + 1] * cD[is];
 		}
 	}
 }
-- 
2.43.0


From 2da41c4ae159595ccd3aeb5a6cb7d11cb1239bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 083/122] fix: the FFT MODWT folds a filter longer than the
 signal instead of writing past its work array

---
 src/wavelib.c | 54 +++++++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index d8ff815..0281f03 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2289,28 +2289,26 @@ static void modwt_fft(wt_object wt, const double *inp) {
 
 	// Low Pass Filter
 
-	for(i = 0; i < len_avg;++i) {
-		sig[i].re = (fft_type) wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for(i = len_avg; i < N;++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2501,28 +2499,26 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
@@ -2619,28 +2615,26 @@ void imodwt_fft(wt_object wt, double *oup) {
 
 	// Low Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->lpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->lpd[i] / s;
+	}
 
 
 	fft_exec(fft_fd, sig, low_pass);
 
 	// High Pass Filter
 
-	for (i = 0; i < len_avg; ++i) {
-		sig[i].re = (fft_type)wt->wave->hpd[i] / s;
-		sig[i].im = 0.0;
-	}
-	for (i = len_avg; i < N; ++i) {
+	for (i = 0; i < N; ++i) {
 		sig[i].re = 0.0;
 		sig[i].im = 0.0;
 	}
+	for (i = 0; i < len_avg; ++i) {
+		sig[i % N].re += (fft_type)wt->wave->hpd[i] / s;
+	}
 
 	fft_exec(fft_fd, sig, high_pass);
 
-- 
2.43.0


From 8e0eea6919c2434433b950a1a446fa7550608b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 084/122] fix: the MODWT multiresolution details went through
 the low-pass filter (the components did not add up to the signal)

---
 src/wavelib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 0281f03..24e8fd7 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2557,10 +2557,10 @@ double* getMODWTmra(wt_object wt, double *wavecoeffs) {
 			ninp[i].im = 0.0;
 		}
 
-		getMODWTRecCoeff(fft_fd, fft_bd, sig, ninp,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
+		getMODWTRecCoeff(fft_fd, fft_bd, ninp, sig,cA, cD, index, "det", J-iter, J, low_pass, high_pass, N);
 
 		for (i = 0; i < wt->siglength; ++i) {
-			mra[lmra+i] = sig[i].re;
+			mra[lmra+i] = ninp[i].re;
 		}
 
 		lenacc += N;
-- 
2.43.0


From 343eaa011d2f3060ea26f419fb927ee6db472cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 085/122] fix: a direct MODWT resets the signal length a
 symmetric one left behind

---
 src/wavelib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 24e8fd7..4de25a9 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2207,6 +2207,7 @@ static void modwt_direct(wt_object wt, const double *inp) {
 
 	temp_len = wt->siglength;
 	J = wt->J;
+	wt->modwtsiglength = temp_len;
 	wt->length[0] = wt->length[J] = temp_len;
 	wt->outlength = wt->length[J + 1] = (J + 1) * temp_len;
 	M = 1;
-- 
2.43.0


From 96c48b842f355632527971631f1bfc6de02723ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 086/122] fix: iswt and the FFT imodwt release the convolution
 objects and index they allocate

---
 src/wavelib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 4de25a9..3f075a6 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2127,6 +2127,11 @@ void iswt(wt_object wt, double *swtop) {
 				oup01[i - lf + 1] = oup00L[i] + oup00H[i];
 			}
 
+			if (wt->cfftset == 1) {
+				free_conv(wt->cobj);
+				wt->cfftset = 0;
+			}
+
 			circshift(oup01, 2*len0, -1);
 
 			index2 = 0;
@@ -2687,6 +2692,7 @@ void imodwt_fft(wt_object wt, double *oup) {
 		oup[i] = sig[i].re;
 	}
 
+	free(index);
 	free(sig);
 	free(cA);
 	free(cD);
-- 
2.43.0


From a7a32ad08fc1292ca3a32f8ad81e7bb681354fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 087/122] fix: dwpt works on an object that was already used
 (its node count was overwritten by the first run)

---
 src/wavelib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wavelib.c b/src/wavelib.c
index 3f075a6..3311fbb 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -833,7 +833,7 @@ void dwpt(wpt_object wt, const double *inp) {
 	temp = 1;
 	elength = 0;
 	size = wt->wave->filtlength;
-	nodes = wt->nodes;
+	nodes = 2 * (ipow2(J) - 1);
 	n1 = nodes + 1;
 	for (i = 0; i < J; ++i) {
 		temp *= 2;
-- 
2.43.0


From 891e01855769c8ea59643d641c0048bc8e6bc937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:33 +0000
Subject: [PATCH 088/122] fix: wt_init without a method means dwt as its
 allocation assumes (it copied a null name)

---
 src/wavelib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index 3311fbb..cdf132f 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -41,6 +41,9 @@ wt_object wt_init(wave_object wave,const char* method, int siglength,int J) {
 	wt_object obj = NULL;
 
 	size = wave->filtlength;
+	if (method == NULL) {
+		method = "dwt"; // Default
+	}
 
 	if (J > 100) {
 		printf("\n The Decomposition Iterations Cannot Exceed 100. Exiting \n");
-- 
2.43.0


From 0b503bc1c24eadafda6671a705d63e4a38788e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 089/122] fix: the FFT modwt releases its index array

---
 src/wavelib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavelib.c b/src/wavelib.c
index cdf132f..624baaa 100644
--- a/src/wavelib.c
+++ b/src/wavelib.c
@@ -2371,6 +2371,7 @@ static void modwt_fft(wt_object wt, const double *inp) {
 		wt->params[i] = sig[i].re/N;
 	}
 
+	free(index);
 	free(sig);
 	free(cA);
 	free(cD);
-- 
2.43.0


From 11da4e3956146228d4fb78ac4909a3b06be0afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 090/122] fix: auto_arima records whether the chosen model has
 a drift term (it was left uninitialised) and fits drift candidates by the
 requested method

---
 src/ctsa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 9a15e9e..67d9bc2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -609,8 +609,10 @@ sarimax_wrapper_object sarimax_wrapper(sarimax_wrapper_object model,double *y, i
 		rr = r;
 
 		
+		obj->idrift = drift;
+		obj->lambda = (lambda != NULL) ? *lambda : 0.0;
+
 		if (drift == 1) {
-			obj->idrift = 1;
 			rr++;
 			xreg2 = (double*)malloc(sizeof(double)*N*rr);
 			for(i = 0; i < N;++i) {
@@ -702,6 +704,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 	}
 
 	diffs = d + D;
+	fit->idrift = (diffs == 1 && constant == 1) ? 1 : 0;
 
 	if ( P + D + Q > 0 && s > 0) {
 		use_season = 1;
@@ -730,6 +733,7 @@ myarima_object myarima(double *x, int N, int *order, int *seasonal, int constant
 		}
 		memcpy(xreg2+N,xreg,sizeof(double)*N*(rr-1));
 		fit->sarimax = sarimax_init(p,d,q,P,D,Q,s,rr,imean,N);
+		sarimax_setMethod(fit->sarimax,rmethod);
 		sarimax_exec(fit->sarimax,x,xreg2);
 		free(xreg2);
 		//sarimax_summary(fit->sarimax);
-- 
2.43.0


From 3728e2144f131a95abeb70bc50d426b439fa142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 091/122] fix: stepwise auto_arima refits the best model with
 that model's own constant term (and releases the last candidate when none
 could be refitted)

---
 src/ctsa.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 67d9bc2..5ffb306 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2134,7 +2134,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				best_ic = fit->myarima->ic;
 				memcpy(bestorder,order,sizeof(int)*3);
 				memcpy(bestseasonalorder,seasonalorder,sizeof(int)*4);
-				bestconstant = constant;
+				bestconstant = (int) results[icindex[i]*8 + 6];
 				free(icvector);
 				free(icindex);
 				myarima_free(fit->myarima);
@@ -2144,6 +2144,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		}
 
 		if (iapprox != 0) {
+			myarima_free(fit->myarima);
 			free(icvector);
 			free(icindex);
 		}
@@ -2152,7 +2153,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,constant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
 
 	
 
-- 
2.43.0


From 65bdf187e7088b914fb638c46579bf454802a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 092/122] fix: stepwise auto_arima keeps the last model it
 tried in its refit list

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 5ffb306..98d6fe8 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2085,8 +2085,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 	
 	}
 
-	k--;
-	if (k == models) {
+	if (k > models) {
+		k = models;
 		printf("Warning : Stepwise search was stopped early due to reaching the model number limit: %d \n",models);
 	}
 
-- 
2.43.0


From 1b4208b622559fc7e5a7b33c9adf2a03e369bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 093/122] fix: exhaustive auto_arima respects allowMean(0) and
 has a defined constant term when no candidate is admissible

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 98d6fe8..a555322 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -917,7 +917,8 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	int approximation, double *xreg, int r, double offset,int allowdrift, int allowmean,int verbose, int method) {
 
 	int idrift, imean, maxK, i, j, I, J,K;
-	double best_ic,bestK,iapprox;
+	double best_ic;
+	int bestK,iapprox;
 	myarima_object bestfit;
 	myarima_object fit;
 	int order[3] = {0,0,0};
@@ -938,6 +939,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("d %d D %d p_max %d q_max %d P_max %d Q_max %d maxK %d \n",d,D,p_max,q_max,P_max,Q_max,maxK);
 
 	best_ic = DBL_MAX;
+	bestK = 0;
 
 	for(i = 0; i <= p_max; ++i) {
 		for(j = 0;j <= q_max;++j) {
@@ -1415,8 +1417,6 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 		fit->otype = 1;
 		fit->Arima = NULL;
 
-		imean = 1;
-	
 		fit->myarima = search_arima(x,N,d,D,p_max,q_max,P_max,Q_max,Order_max,istationary,s,ic,iapprox,xreg,r,offset,idrift,imean,verbose,amethod);
 		free(x);
 		free(xx);
-- 
2.43.0


From a9b43ac9ba7b9e31787478d159bf83f25d9ff277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 094/122] fix: exhaustive auto_arima with approximation refits
 the selected model by maximum likelihood

---
 src/ctsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a555322..e5be90d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -992,7 +992,8 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 
 	//printf("best_ic %g \n",best_ic);
 
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, approximation, offset,xreg, r, NULL);
+	// approximation only speeds up the search, the selected model is fitted by ML
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
-- 
2.43.0


From b93ba39cfe3f544a701be1ff40366e08d41b40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 095/122] fix: auto_arima does not difference a series declared
 stationary

---
 src/ctsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index e5be90d..240732d 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1258,6 +1258,10 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	d = dd == NULL ? -1 : *dd;
 
+	if (istationary) {
+		d = 0;
+	}
+
 	if (d == -1) {
 		d = ndiffs(dx,Nd,test_alpha,test,type,&d_max);
 
-- 
2.43.0


From 8bc09d1661dcedc86fe59173723f0722a4caeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 096/122] fix: auto_arima_setSeasonal(0) switches the seasonal
 part off

---
 src/ctsa.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 240732d..b0b968e 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1113,6 +1113,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (seasonal == NULL) {
 		iseasonal = 1;
+	} else {
+		iseasonal = *seasonal;
 	}
 
 	if (stepwise == NULL) {
@@ -1152,7 +1154,8 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	//mdisplay(x,1,N);
 
-	if (s <= 1) {
+	if (s <= 1 || !iseasonal) {
+		s = 0;
 		m = 1;
 	} else {
 		m = s;
-- 
2.43.0


From 731e0dc3d8a94cb6cd90783d40d5d04b865919cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 097/122] fix: auto_arima takes all regressors (and the
 intercept) out before choosing the differencing orders

---
 src/ctsa.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index b0b968e..a721cc6 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1206,13 +1206,14 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			exit(-1);
 		}
 
-		varcovar = (double*)malloc(sizeof(double)*r*r);
+		varcovar = (double*)malloc(sizeof(double)*(r+1)*(r+1));
 
-		reg = reg_init(N,r);
+		reg = reg_init(N,r+1);
 
 		//setIntercept(reg,0);
 		regress(reg,xreg,x,xx,varcovar,0.95);
 
+		free_reg(reg);
 		free(varcovar);
 	}
 
@@ -1253,9 +1254,11 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	if (xreg) {
 		if (D > 0) {
-			diffs(xreg,N,D,s,diffxreg);
+			for(i = 0; i < r;++i) {
+				diffs(xreg+i*N,N,D,s,diffxreg+i*Nd);
+			}
 		} else {
-			memcpy(diffxreg,xreg,N*r);
+			memcpy(diffxreg,xreg,sizeof(double)*N*r);
 		}
 	}
 
-- 
2.43.0


From 1c2d59f1fff377c4ac13994d76841ec1d517e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 098/122] fix: auto_arima_exec returns with retval 0 when no
 model can be fitted

---
 src/ctsa.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index a721cc6..ed8b283 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -322,6 +322,8 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	
 	obj->p = obj->d = obj->q = obj->P = obj->D = obj->Q = 0;
 	obj->aic = obj->bic = obj->aicc = 0;
+	obj->Nused = 0;
+	obj->loglik = obj->ic = obj->lambda = obj->sigma2 = 0.0;
 
 
 	return obj;
@@ -432,6 +434,13 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	imean = obj->imean;
 	idrift = obj->idrift;
 
+	if (fit->otype == 0) {
+		// no model was fitted
+		obj->retval = 0;
+		aa_ret_free(fit);
+		return;
+	}
+
 	if (fit->otype == 2) {
 		p = fit->Arima->sarimax->p;
 		d = fit->Arima->sarimax->d;
@@ -4388,7 +4397,7 @@ void aa_ret_free(aa_ret_object object) {
 	// use proper free wrapers for given type 
 	if (object->otype == 1) {
 		myarima_free(object->myarima);
-	} else {
+	} else if (object->otype == 2) {
 		sarimax_wrapper_free(object->Arima);
 	}
 	free(object);
-- 
2.43.0


From 7ac95e907c891a81d0ec8ab1b182c881902dac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 099/122] fix: auto_arima models a constant series by its mean
 alone (it added a drift term to it)

---
 src/ctsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index ed8b283..6883381 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1353,7 +1353,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 				seasonalorder[3] = 0;
 				order[0] = order[2] = 0;
 				order[1] = d;
-				idrift = 1;
+				idrift = (d == 1);
 				fit->Arima = sarimax_wrapper(NULL,x,N,order,seasonalorder,NULL,r,idrift,imean,NULL,biasadj,amethod);
 				fit->myarima = NULL;
 				fit->otype = 2;
-- 
2.43.0


From b372a26279ef7c590b090335e1ac6a6c01478297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 100/122] fix: auto_arima_predict uses every regressor when the
 model has a drift term (the last one was dropped)

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6883381..ba0230f 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3108,7 +3108,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 			W[i] -= obj->exog[0]*(i+1);
 		}
 		if (obj->r > 0) {
-			for(j = diter; j < obj->r;++j) {
+			for(j = diter; j < obj->r + diter;++j) {
 				W[i] -= obj->exog[j] * xreg[(j-diter)*N+i];
 			}
 		}
@@ -3147,7 +3147,7 @@ void auto_arima_predict(auto_arima_object obj, double *inp, double *xreg, int L,
 		if (obj->idrift == 1) {
 			xpred[i] += obj->exog[0]*(i+1+N);
 		}
-		for(j = diter; j < obj->r;++j) {
+		for(j = diter; j < obj->r + diter;++j) {
 			xpred[i] += obj->exog[j] * newxreg[(j - diter)*L+i];
 		}
 	}
-- 
2.43.0


From 807fc9e1a8e44e79359119800ce526ebca29da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 101/122] fix: auto_arima_exec keeps the drift option and the
 period apart from its results (a second run on the object used the first
 run's)

---
 header/ctsa.h |  2 ++
 src/ctsa.c    | 10 ++++++----
 src/ctsa.h    |  2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/header/ctsa.h b/header/ctsa.h
index 58fa9f2..47e56de 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -76,6 +76,8 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int allowdrift; // option: a drift term may be considered
+	int period; // seasonality/period given to auto_arima_init
 	double params[0];
 };
 
diff --git a/src/ctsa.c b/src/ctsa.c
index ba0230f..2dbe51a 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -306,7 +306,9 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->alpha_test = 0.05;
 	obj->alpha_seas = 0.05;
 	obj->imean = 1;
-	obj->idrift = 1;
+	obj->idrift = 0;
+	obj->allowdrift = 1;
+	obj->period = s;
 
 	strcpy(obj->test,"kpss");
 	strcpy(obj->seas,"seas");
@@ -427,9 +429,9 @@ void auto_arima_exec(auto_arima_object obj, double *inp,double *xreg) {
 	start[2] = obj->P_start;
 	start[3] = obj->Q_start;
 
-	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->s,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
+	fit = auto_arima1(inp,obj->N,order,seasonal,&obj->Order_max,obj->period,NULL,NULL,start,&obj->stationary,&obj->seasonal, obj->information_criteria,
 	 &obj->stepwise,&obj->num_models,&obj->approximation,&obj->method,xreg,obj->r,obj->test,obj->type, &obj->alpha_test,obj->seas, &obj->alpha_seas,
-	 &obj->idrift, &obj->imean,obj->verbose, NULL);
+	 &obj->allowdrift, &obj->imean,obj->verbose, NULL);
 
 	imean = obj->imean;
 	idrift = obj->idrift;
@@ -2814,7 +2816,7 @@ void auto_arima_allowMean(auto_arima_object obj, int allowmean) {
 
 void auto_arima_allowDrift(auto_arima_object obj, int allowdrift) {
 	if (allowdrift == 0 || allowdrift == 1) {
-		obj->idrift = allowdrift;
+		obj->allowdrift = allowdrift;
 	} else {
 		printf("Allowdrift parameter accepts only two values - 0 or 1 \n");
 	}
diff --git a/src/ctsa.h b/src/ctsa.h
index c485a9f..3028485 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -203,6 +203,8 @@ struct auto_arima_set{
 	double aic;
 	double bic;
 	double aicc;
+	int allowdrift; // option: a drift term may be considered
+	int period; // seasonality/period given to auto_arima_init
 	double params[];
 };
 
-- 
2.43.0


From 5eb06f64f8eca145701da7e562650cd873266e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 102/122] fix: the headers declare auto_arima_allowMean and
 auto_arima_allowDrift (the options could not be set without an implicit
 declaration)

---
 header/ctsa.h | 4 ++++
 src/ctsa.h    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/header/ctsa.h b/header/ctsa.h
index 47e56de..d5d8b7c 100644
--- a/header/ctsa.h
+++ b/header/ctsa.h
@@ -255,6 +255,10 @@ void auto_arima_setStationarityParameters(auto_arima_object obj,const char *test
 
 void auto_arima_setSeasonalParameters(auto_arima_object obj,const char *test, double alpha);
 
+void auto_arima_allowMean(auto_arima_object obj, int allowmean);
+
+void auto_arima_allowDrift(auto_arima_object obj, int allowdrift);
+
 void auto_arima_setVerbose(auto_arima_object obj,int verbose);
 
 void arima_summary(arima_object obj);
diff --git a/src/ctsa.h b/src/ctsa.h
index 3028485..670f87f 100644
--- a/src/ctsa.h
+++ b/src/ctsa.h
@@ -316,6 +316,10 @@ void auto_arima_setStationarityParameters(auto_arima_object obj,const char *test
 
 void auto_arima_setSeasonalParameters(auto_arima_object obj,const char *test, double alpha);
 
+void auto_arima_allowMean(auto_arima_object obj, int allowmean);
+
+void auto_arima_allowDrift(auto_arima_object obj, int allowdrift);
+
 void auto_arima_setVerbose(auto_arima_object obj,int verbose);
 
 void arima_summary(arima_object obj);
-- 
2.43.0


From 9e14a79c4dc5c7ff442217da1db6addfbe6a36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 103/122] fix: auto_arima_summary counts the drift term among
 the regressors (it printed a mean that is not there, the wrong standard
 errors and one regressor too few)

---
 src/ctsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 2dbe51a..7eb93f2 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -3702,7 +3702,7 @@ void sarimax_summary(sarimax_object obj) {
 void auto_arima_summary(auto_arima_object obj) {
 	int i, pq,t,ncxreg,mean,drift;
 	pq = obj->p + obj->q + obj->P + obj->Q + obj->M;
-	mean = obj->M - obj->r;
+	mean = obj->M - obj->r - (obj->idrift == 1 ? 1 : 0);
 
 	if (obj->method == 0 || obj->method == 1) {
 		printf("\n\nExit Status \n");
@@ -3771,7 +3771,7 @@ void auto_arima_summary(auto_arima_object obj) {
 	} else {
 		printf("%-17s%-20g \n", "TREND", 0.0);
 	}
-	for(i = ncxreg; i < obj->r; ++i) {
+	for(i = ncxreg; i < obj->r + ncxreg; ++i) {
 		printf("%-17s%-20g%-20g \n", "EXOG", obj->exog[i], sqrt(obj->vcov[t + pq * t]));
 		t++;
 	}
-- 
2.43.0


From 792304838c1068d85f7fa2782cfe5fe18db65ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 104/122] fix: model_estimate selects the orders of the
 differenced series (with d > 0 the differences were overwritten by the
 undifferenced series)

---
 src/ctsa.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 7eb93f2..a7259f0 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -4216,7 +4216,12 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	inp = (double*)malloc(sizeof(double)* (N - d));
 
 	if (d > 0) {
-		N = diff(x, N, d, inp); // No need to demean x
+		N = diff(x, N, d, inp);
+	}
+	else {
+		for (i = 0; i < N; ++i) {
+			inp[i] = x[i];
+		}
 	}
 
 	m = h;
@@ -4224,10 +4229,10 @@ void model_estimate(double *x, int N, int d, int pmax, int h) {
 	phim = (double*)malloc(sizeof(double)* m);
 	a = (double*)malloc(sizeof(double)* N);
 
-	wmean = mean(x, N);
+	wmean = mean(inp, N);
 
 	for (i = 0; i < N; ++i) {
-		inp[i] = x[i] - wmean;
+		inp[i] -= wmean;
 	}
 
 	// Estimate AR(m) coefficients
-- 
2.43.0


From 7cc90ed886fe2016131e4d546cf3669ee7814afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 105/122] fix: Box-Jenkins estimation of a model without
 coefficients (it solved an empty system through a null pointer)

---
 src/boxjenkins.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index a94e58d..168e89f 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -665,6 +665,23 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	} else {
 		M = 0;
 	}
+
+	if (k == 0) {
+		// Nothing to estimate
+		for(i = 0; i < N;++i) {
+			residuals[i] = inp[i];
+		}
+		*var = sosqm(inp,N) / N;
+		*thetac = 0.0;
+		free(inp);
+		free(origval);
+		free(orig);
+		free(phi0);
+		free(theta0);
+		free(phiinc);
+		free(thetainc);
+		return 1;
+	}
 	
 	b = (double*) malloc(sizeof(double) * k);
 	at = (double*) malloc(sizeof(double) * (N+qd-1));
@@ -1116,6 +1133,20 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		M = 0;
 	}
 
+	if (k == 0) {
+		// Nothing to estimate
+		for(i = 0; i < N;++i) {
+			residuals[i] = inp[i];
+		}
+		*var = sosqm(inp,N) / N;
+		*thetac = 0.0;
+		free(inp2);
+		free(inp);
+		free(origval);
+		free(orig);
+		return 1;
+	}
+
 	b = (double*) malloc(sizeof(double) * k);
 	at = (double*) malloc(sizeof(double) * (N+qd-1));
 	at0 = (double*) malloc(sizeof(double) * (N+qd-1));
-- 
2.43.0


From 202c1fbadce21a304963100f4f4c2a00019c8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 106/122] fix: Box-Jenkins estimation reports the mean of the
 process, which forecasts subtract (it reported the constant term
 mean*(1-phi), and started from it)

---
 src/boxjenkins.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 168e89f..68effb7 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -655,6 +655,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
+	*thetac = mean(inp,N);
 
 	if (M == 1) {
 		for(i = 0; i < N;++i) {
@@ -960,13 +961,9 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		for (i = 0;i < p;++i) {
-			temp += phiinc[i];
-		}
-		*thetac = b[0] * (1.0 - temp);
+		*thetac = b[0];
 	} else {
 		*thetac = 0.0;
 	}
@@ -1033,7 +1030,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		int M,double *thetac,double *var,double eps,double *varcovar,double *residuals) {
 
 	int retval,i,j,l,k,t,t2,it,Norig,qd,itmax;
-	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb,temp2;
+	double lam,vmul,e1,di,eps2,stepsize,temp,tau,hmax,suminc,sumb;
 	double *inp,*b,*at,*at0,*x,*phi0,*theta0,*orig,*A,*g,*D,*h,*binc,*Atemp;
 	double *phiincx,*thetaincx,*atinc,*resat,*origval;
 	int *ipiv;
@@ -1093,6 +1090,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
+	*thetac = mean(inp,N);
 	USPE_seasonal(inp,N,s,lps,lqs,phis,thetas);
 	//mdisplay(phi,1,p);
 	//mdisplay(theta,1,q);
@@ -1591,17 +1589,9 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
-	//Constant Term
+	//Mean
 	if (M == 1) {
-		temp = 0.0;
-		temp2 = 0.0;
-		for (i = 0; i < p; ++i) {
-			temp -= phiinc[i+1];
-		}
-		for (i = 0; i < lps; ++i) {
-			temp2 -= phisinc[i + 1];
-		}
-		*thetac = b[0] * (1.0 - temp)*(1.0 - temp2) ;
+		*thetac = b[0];
 	}
 	else {
 		*thetac = 0.0;
-- 
2.43.0


From 13a85313dad451d4338a536e89c5d7d826722eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 107/122] fix: Box-Jenkins covariance matrix follows the order
 of the other methods and of the summary (the mean comes last; it came first,
 so every printed standard error belonged to another coefficient)

---
 src/boxjenkins.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 68effb7..f2d05c5 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -339,6 +339,21 @@ void USPE_seasonal(double *inp,int N,int s,int p, int q, double *phi,double *the
 
 }
 
+static void meanlast(double *cov,int k,double *temp) {
+	// Moves the mean from the first to the last row and column
+	int i,j;
+
+	for (i = 0; i < k*k;++i) {
+		temp[i] = cov[i];
+	}
+
+	for (i = 0; i < k;++i) {
+		for (j = 0; j < k;++j) {
+			cov[i*k+j] = temp[((i+1)%k)*k+(j+1)%k];
+		}
+	}
+}
+
 static double sosqm(double *vec, int N) {
 	double sos;
 	int i;
@@ -997,6 +1012,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		varcovar[i] = varcovar[i] * (*var);
 	}
 
+	if (M == 1) {
+		meanlast(varcovar,k,Atemp);
+	}
+
 	for(i = qd-1; i < N+qd-1;++i) {
 		residuals[i-qd+1] = resat[i];
 	}
@@ -1639,6 +1658,10 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 		varcovar[i] = varcovar[i] * (*var);
 	}
 
+	if (M == 1) {
+		meanlast(varcovar, k, Atemp);
+	}
+
 
 	for (i = qd - 1; i < N + qd - 1; ++i) {
 		residuals[i - qd + 1] = resat[i];
-- 
2.43.0


From c36f688ccdf50c436556be1dbd3dcd9e0ffcb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 108/122] fix: Box-Jenkins estimation starts inside the
 stationary and invertible region (an explosive preliminary estimate was kept
 and reported as a success)

---
 src/boxjenkins.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index f2d05c5..33f3c0d 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -339,6 +339,24 @@ void USPE_seasonal(double *inp,int N,int s,int p, int q, double *phi,double *the
 
 }
 
+static void startvalues(double *coef,int n) {
+	// Estimation has to start inside the stationary (invertible) region
+	int i,ok;
+
+	ok = 1;
+	for (i = 0; i < n;++i) {
+		if (!(fabs(coef[i]) < 1.0e+10)) {
+			ok = 0;
+		}
+	}
+
+	if (ok == 0 || (n > 0 && archeck(n,coef) == 0)) {
+		for (i = 0; i < n;++i) {
+			coef[i] = 0.0;
+		}
+	}
+}
+
 static void meanlast(double *cov,int k,double *temp) {
 	// Moves the mean from the first to the last row and column
 	int i,j;
@@ -671,6 +689,8 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
 	*thetac = mean(inp,N);
+	startvalues(phi,p);
+	startvalues(theta,q);
 
 	if (M == 1) {
 		for(i = 0; i < N;++i) {
@@ -1111,6 +1131,10 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	USPE(inp,N,p,q,phi,theta,thetac,var); // Initial Parameters
 	*thetac = mean(inp,N);
 	USPE_seasonal(inp,N,s,lps,lqs,phis,thetas);
+	startvalues(phi,p);
+	startvalues(theta,q);
+	startvalues(phis,lps);
+	startvalues(thetas,lqs);
 	//mdisplay(phi,1,p);
 	//mdisplay(theta,1,q);
 	//mdisplay(phis,1,lps);
-- 
2.43.0


From 50dcd5fcf892de1891f6aac33805a5b502d8cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 109/122] fix: Box-Jenkins estimation differentiates at
 coefficients that are zero (the step was zero: a series with zero mean gave
 NaN estimates)

---
 src/boxjenkins.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 33f3c0d..2cc968e 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -384,6 +384,18 @@ static double sosqm(double *vec, int N) {
 	return sos;
 }
 
+static double typical(double *inp,int N,int i,int M) {
+	// Smallest magnitude a coefficient is differentiated at
+	if (i == 0 && M == 1) {
+		return sqrt(sosqm(inp,N) / N);
+	}
+	return 0.1;
+}
+
+static double diffstep(double b,double typ,double di) {
+	return (fabs(b) > typ ? b : typ) * di;
+}
+
 void avaluem(double *w,int N,int p, int q, double *phi,double *theta,int tval,double *a) {
 	int k,i,t,t2,newl,iter;
 	double temp;
@@ -754,7 +766,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	//mdisplay(at,1,N+qd-1);
 	for(i = 0; i < k;++i) {
-		stepsize = b[i]*di;//di;//b[i] * di;
+		stepsize = diffstep(b[i],typical(inp,N,i,M),di);
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -908,7 +920,7 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 			    }
 				
 				for(i = 0; i < k;++i) {
-					stepsize = b[i]*di;//di;//b[i] * di;
+					stepsize = diffstep(b[i],typical(inp,N,i,M),di);
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
@@ -1284,7 +1296,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	}
 	
 	for (i = 0; i < k; ++i) {
-		stepsize = b[i] * di;//di;//b[i] * di;
+		stepsize = diffstep(b[i],typical(inp,N,i,M),di);
 		temp = b[i];
 		b[i] += stepsize;
 		stepsize = b[i] - temp;
@@ -1510,7 +1522,7 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 				}
 
 				for (i = 0; i < k; ++i) {
-					stepsize = b[i] * di;//di;//b[i] * di;
+					stepsize = diffstep(b[i],typical(inp,N,i,M),di);
 					temp = b[i];
 					b[i] += stepsize;
 					stepsize = b[i] - temp;
-- 
2.43.0


From 0d7d47aebe130cfba7afbdd42276ef980de28d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 110/122] fix: Box-Jenkins estimation that ends in NaN reports
 code 15 instead of success

---
 src/boxjenkins.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/boxjenkins.c b/src/boxjenkins.c
index 2cc968e..4833a08 100644
--- a/src/boxjenkins.c
+++ b/src/boxjenkins.c
@@ -1003,8 +1003,10 @@ int nlalsm(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	
 	if (it >= itmax) {
 		retval = 4;
-	} else if (it < itmax && it > 0) {
+	} else if (hmax < e1 && suminc == suminc && sumb == sumb) {
 		retval = 1;
+	} else {
+		retval = 15;
 	}
 	// Residual Variance
 	*var = sumb * 1.0 /(N - p - q - M);
@@ -1639,9 +1641,12 @@ int nlalsms(double *vec,int N,int p,int delta, int q, double *phi,double *theta,
 	if (it >= itmax) {
 		retval = 4;
 	}
-	else if (it < itmax && it > 0) {
+	else if (hmax < e1 && suminc == suminc && sumb == sumb) {
 		retval = 1;
 	}
+	else {
+		retval = 15;
+	}
 	// Residual Variance
 	*var = sumb * 1.0 / (N - p - q - lps - lqs - M);
 	//Mean
-- 
2.43.0


From 6dbc3c88d8f1d99f9a52d994413a20bf9e60235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 111/122] fix: model objects start with a defined
 log-likelihood and AIC (methods that do not compute them left uninitialised
 values in the object)

---
 src/ctsa.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index a7259f0..6e783f7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -43,6 +43,8 @@ arima_object arima_init(int p, int d, int q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + M)*(p + q + M);
 	obj->ncoeff = p + q + M;
 
@@ -99,6 +101,8 @@ sarima_object sarima_init(int p, int d, int q,int s, int P,int D,int Q, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + M)*(p + q + P + Q + M);
 	obj->ncoeff = p + q + P + Q + M;
 
@@ -220,6 +224,8 @@ sarimax_object sarimax_init(int p, int d, int q,int P, int D, int Q,int s, int r
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (p + q + P + Q + ncxreg )*(p + q + P + Q + ncxreg );
 	obj->ncoeff = p + q + P + Q + ncxreg ;
 
@@ -291,6 +297,8 @@ auto_arima_object auto_arima_init(int *pdqmax,int *PDQmax,int s, int r, int N) {
 	obj->optmethod = 5; // Default Method is 5
 	obj->mean = 0.0;
 	obj->var = 1.0;
+	obj->loglik = 0.0;
+	obj->aic = 0.0;
 	obj->lvcov = (pmax + qmax + Pmax + Qmax + ncxreg )*(pmax + qmax + Pmax + Qmax + ncxreg );
 	obj->ncoeff = pmax + qmax + Pmax + Qmax + ncxreg ;
 
-- 
2.43.0


From 040fff473188e171868e8af309a0c15335de775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 112/122] fix: the OCSB test reports no statistic for a series
 it cannot be computed on (too short, or only singular regressions) instead of
 ending the process

---
 src/seastest.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/seastest.c b/src/seastest.c
index 57ade9b..ee808a6 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -606,9 +606,16 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     int i, bestindex,allnans,maxlag;
     double *tval,*icvals;
     reg_object fit;
-    reg_object *list = (reg_object*)calloc(mlags > 0 ? mlags : 1,sizeof(reg_object));
+    reg_object *list = NULL;
     reg_object crit_reg = NULL;
 
+    *critical = calcOCSBCritVal(f);
+    *statistics = NAN;
+
+    /* every regression needs more observations than it has coefficients */
+    if (N - f - 1 - (mlags > 0 ? mlags : 0) <= (mlags > 0 ? mlags : 0) + 2) return;
+
+    list = (reg_object*)calloc(mlags > 0 ? mlags : 1,sizeof(reg_object));
     icvals = (double*) malloc(sizeof(double)*mlags);
 
     maxlag = mlags;
@@ -624,7 +631,12 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
         if (allnans == 1) {
             printf("All lag values up to 'maxlag' produced singular matrices. Use different method. \n");
-            exit(-1);
+            for(i = 0; i < mlags;++i) {
+                free_reg(list[i]);
+            }
+            free(list);
+            free(icvals);
+            return;
         }
 
         bestindex = getBestIndex(icvals,mlags);
@@ -655,7 +667,10 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
     if (fit->rank != fit->p && fit->rank == fit->rank) {
         if (crit_reg == NULL) {
             printf("Could not find a solution. Try a different method. \n");
-            exit(-1);
+            free_reg(fit);
+            free(list);
+            free(icvals);
+            return;
         } else {
             free_reg(fit);
             fit = crit_reg;
@@ -670,7 +685,6 @@ void OCSBtest(double *x, int N, int f, int mlags, const char *method,double *sta
 
     //mdisplay(tval,1,fit->p);
 
-    *critical = calcOCSBCritVal(f);
     *statistics = tval[fit->p-1];
 
     if (fit != crit_reg) free_reg(fit);
-- 
2.43.0


From 9420922313757b0b2eb9f739231f25a4242bd03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 113/122] fix: the seasonal strength test returns 0 for a
 period the decomposition dropped instead of leaving it uninitialised

---
 src/seastest.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seastest.c b/src/seastest.c
index ee808a6..030f327 100644
--- a/src/seastest.c
+++ b/src/seastest.c
@@ -722,6 +722,10 @@ void SHtest(double *x, int N, int *f, int Nseas, double *season) {
 
     vare = var(remainder,N);
 
+    for(j = 0; j < Nseas; ++j) {
+        season[j] = 0;
+    }
+
     for(j = 0; j < Niter; ++j) {
 
         for(i = 0; i < N;++i) {
-- 
2.43.0


From beb0eccfabaad99608a1ce92554aedd5c230fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 114/122] fix: ndiffs stops differencing a series that has
 become too short for its unit-root test instead of ending the process

---
 src/autoutils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/autoutils.c b/src/autoutils.c
index 3c70119..618b696 100644
--- a/src/autoutils.c
+++ b/src/autoutils.c
@@ -23,6 +23,8 @@ static int runstattests(double *x, int N, const char * test,const char *mtype,do
             printf("ndiffs only accepts one of two types : level and trend. \n");
             exit(-1);
         }
+
+        if (N < 3) return 0; // too short to be tested
         
         klag = (int) 3.0 * sqrt((double)N) / 13.0;
         lshort = 1;
@@ -38,6 +40,8 @@ static int runstattests(double *x, int N, const char * test,const char *mtype,do
             printf("ndiffs only accepts one of two types : level and trend. \n");
             exit(-1);
         }
+        if (N < (strcmp(mtype,"trend") ? 6 : 7)) return 0; // too short for the regression
+
         selectlags = "fixed";
         klag = 1;
         pN = 3;
@@ -57,6 +61,8 @@ static int runstattests(double *x, int N, const char * test,const char *mtype,do
             printf("ndiffs KPSS only accepts one of two types : level and trend. \n");
             exit(-1);
         }
+        if (N < (strcmp(mtype,"trend") ? 4 : 5)) return 0; // too short for the regression
+
         type = "Z-tau";
         lshort = 1;
         pN = 3;
-- 
2.43.0


From 0cf76f7c1864bfc0b310bb8f5b1a4045bf33d69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 115/122] fix: a fit that ends without a finite residual
 variance is reported as code 15 rather than as converged

---
 src/emle.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/emle.c b/src/emle.c
index 55fbe43..7ed4a27 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1368,6 +1368,9 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[N+i];
 	}
@@ -1638,6 +1641,9 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	}*/
 
 	*var = (obj->ssq) / (double) N;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 	for (i = 0; i < length - d; ++i) {
 		resid[i] = obj->x[N + i];
 	}
@@ -1944,6 +1950,9 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 
 	*var = (obj->ssq) / (double) N;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[offset + N + i];
@@ -2219,6 +2228,9 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[offset + N + i];
 	}
@@ -2615,6 +2627,9 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	}*/
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 	//*var = (obj->ssq) / (double) N;
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[offset + N + i];
@@ -2950,6 +2965,9 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
+	if (ret == 1 && !isfinite(*var)) {
+		ret = 15;
+	}
 	for (i = 0; i < N; ++i) {
 		resid[i] = obj->x[offset + N + i];
 	}
-- 
2.43.0


From 62475c67fd1ec68e0a0ca9e0233b56c33dc11e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 116/122] fix: ar_exec and ar report code 15 when Yule-Walker
 or Burg gives no finite variance (constant series)

---
 src/ctsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index 6e783f7..e0324d7 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -2232,6 +2232,10 @@ void ar_exec(ar_object obj, double *inp) {
 		free(x);
 	}
 
+	if (obj->retval == 1 && !isfinite(obj->var)) {
+		obj->retval = 15;
+	}
+
 	obj->order = obj->p;
 
 
-- 
2.43.0


From 823232b44da2b821d41540883f40296f2577ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 117/122] fix: an autoregressive polynomial with a root exactly
 on the unit circle is not stationary (archeck accepted it and the fit
 reported an infinite likelihood as converged)

---
 src/talg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/talg.c b/src/talg.c
index d407bcd..57274d6 100644
--- a/src/talg.c
+++ b/src/talg.c
@@ -782,7 +782,7 @@ int archeck(int p, double *ar) {
 
 	for(i = 0; i < wmax;++i) {
 		mod = sqrt(pow(zeror[i],2.0) + pow(zeroi[i],2));
-		if (mod < 1.0) {
+		if (mod <= 1.0) {
 			free(coeff);
 			free(zeror);
 			free(zeroi);
-- 
2.43.0


From 3ccab037a34fc18983dbf6cc7d7b5881de4b4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 118/122] fix: a fit whose final objective is NaN or +infinity
 is reported as code 15 rather than as converged

---
 src/emle.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/emle.c b/src/emle.c
index 7ed4a27..04a267d 100644
--- a/src/emle.c
+++ b/src/emle.c
@@ -1368,7 +1368,7 @@ int css(double *inp, int N, int optmethod, int p, int d, int q, double *phi, dou
 	}
 	*/
 	*var = (obj->ssq) / (double)N;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 	for (i = 0; i < N; ++i) {
@@ -1641,7 +1641,7 @@ int as154(double *inp, int N, int optmethod, int p, int d, int q, double *phi, d
 	}*/
 
 	*var = (obj->ssq) / (double) N;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 	for (i = 0; i < length - d; ++i) {
@@ -1950,7 +1950,7 @@ int as154x(double *inp, int N, double *xreg, int optmethod, int p, int d, int q,
 
 
 	*var = (obj->ssq) / (double) N;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 
@@ -2228,7 +2228,7 @@ int css_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, int
 	}*/
 
 	*var = (obj->ssq) / (double)N;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 	for (i = 0; i < N; ++i) {
@@ -2627,7 +2627,7 @@ int cssx(double *inp, int N, double *xreg, int optmethod, int p, int d, int q, i
 	}*/
 
 	*var = (obj->ssq) / (double) obj->Nmncond;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 	//*var = (obj->ssq) / (double) N;
@@ -2965,7 +2965,7 @@ int as154_seas(double *inp, int N, int optmethod, int p, int d, int q, int s, in
 	}
 
 	*var = (obj->ssq) / (double) N;
-	if (ret == 1 && !isfinite(*var)) {
+	if (ret == 1 && (!isfinite(*var) || !(obj->loglik <= DBL_MAX))) {
 		ret = 15;
 	}
 	for (i = 0; i < N; ++i) {
-- 
2.43.0


From 2804c2ec56eecebcfa14d68750fec6bb6ecf4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 119/122] fix: a minimiser whose starting value or gradient
 overflows returns code 15 with the starting point (it tested an uninitialised
 gradient and could report convergence)

---
 src/newtonmin.c | 18 ++++++++++++++++--
 src/secant.c    | 36 ++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/newtonmin.c b/src/newtonmin.c
index 16b955b..ecc88f0 100644
--- a/src/newtonmin.c
+++ b/src/newtonmin.c
@@ -1332,6 +1332,13 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	
 	//printf("dt1 dt2 %g \n", maxstep);
 	//maxstep = 1e15;
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 			den = fabs(fx);
@@ -1349,7 +1356,7 @@ int newton_min_func(custom_function *funcpt, custom_gradient *funcgrad, double *
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -1851,6 +1858,13 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	}
 	
 
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 			den = fabs(fx);
@@ -1868,7 +1882,7 @@ int newton_min_trust(custom_function *funcpt, custom_gradient *funcgrad, double
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
diff --git a/src/secant.c b/src/secant.c
index 75d94aa..6f30d58 100644
--- a/src/secant.c
+++ b/src/secant.c
@@ -229,6 +229,13 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	
 	//printf("dt1 dt2 %g \n", maxstep);
 
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 			den = fabs(fx);
@@ -246,7 +253,7 @@ int bfgs_min_naive(custom_function *funcpt, custom_gradient *funcgrad, double *x
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -497,6 +504,13 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 		}
 	}
 	
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 			den = fabs(fx);
@@ -514,7 +528,7 @@ int bfgs_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, int
 	
 	stop0 = array_max_abs(scheck,N);
 	
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
@@ -664,6 +678,13 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 		}
 	}
 
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 		den = fabs(fx);
@@ -683,7 +704,7 @@ int bfgs_min2(custom_function *funcpt, custom_gradient *funcgrad, double *xi, in
 
 	stop0 = array_max_abs(scheck, N);
 
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for (i = 0; i < N; ++i) {
 			xf[i] = xi[i];
@@ -937,6 +958,13 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 	}
 
 
+	if (rcode == 15) { // there is no value or gradient to start from
+		for(i = 0; i < N;++i) {
+			xf[i] = xi[i];
+			jac[i] = 0.0;
+		}
+	}
+
 	//Check Stop0
 	if (fabs(fx) > fabs(fsval)) {
 			den = fabs(fx);
@@ -954,7 +982,7 @@ int bfgs_l_min(custom_function *funcpt, custom_gradient *funcgrad, double *xi, i
 
 	stop0 = array_max_abs(scheck,N);
 
-	if (stop0 <= gtol * 1e-03) {
+	if (rcode == 0 && stop0 <= gtol * 1e-03) {
 		rcode = 1;
 		for(i = 0; i < N;++i) {
 			xf[i] = xi[i];
-- 
2.43.0


From 6f13b9e3ec69201549bb73c5c67fb7929afb7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:07 +0000
Subject: [PATCH 120/122] fix: a conditional or Box-Jenkins fit on an object
 used before no longer keeps the AIC (or log-likelihood) of the earlier fit

---
 src/ctsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ctsa.c b/src/ctsa.c
index e0324d7..70c5940 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -355,6 +355,8 @@ void arima_exec(arima_object obj, double *inp) {
 		M = 1;
 	}
 
+	obj->loglik = obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		obj->retval = as154(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->params, obj->params + p, &obj->mean, &obj->var, obj->params + p + q,&obj->loglik,
 			obj->params + p + q + N - d,obj->cssml);
@@ -390,6 +392,8 @@ void sarimax_exec(sarimax_object obj, double *inp,double *xreg)  {
 
 	M = obj->M;
 
+	obj->loglik = obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		cssml = 1;
 		obj->retval = as154x(inp, obj->N, xreg, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
@@ -559,6 +563,8 @@ void sarima_exec(sarima_object obj, double *inp) {
 
 	M = obj->M;
 
+	obj->loglik = obj->aic = 0.0;
+
 	if (obj->method == 0) {
 		obj->retval = as154_seas(inp, obj->N, obj->optmethod, obj->p, obj->d, obj->q, obj->s, obj->P, obj->D, obj->Q, obj->params, obj->params + p, obj->params + p + q, 
 			obj->params + p + q + P, &obj->mean, &obj->var, obj->res, &obj->loglik, obj->params + p + q + P + Q + N - d - s*D,obj->cssml);
-- 
2.43.0


From 4800935d7637c22653d638eb57396b708cbde4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 121/122] fix: a regression on an object used before no longer
 keeps the rank of the earlier QR fit when the method does not compute one

---
 src/regression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/regression.c b/src/regression.c
index 08067dc..436ee42 100644
--- a/src/regression.c
+++ b/src/regression.c
@@ -534,6 +534,7 @@ void regress(reg_object obj, double *x, double *y, double *res, double *varcovar
 	*/
 	p = obj->p;
 	obj->alpha = alpha;
+	obj->rank = 0;
 	anv2 = (double*)malloc(sizeof(double) * 7);
 	b2 = p == 0 ? NULL : (double*)malloc(sizeof(double) * p);
 	low = (double*)malloc(sizeof(double) * (p + 1));
-- 
2.43.0


From dc39626345804176b36751ff1af46b79fcb2434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:27 +0000
Subject: [PATCH 122/122] fix: auto_arima_setMethod chooses how the selected
 model is estimated (it was ignored while the summary named the chosen method)

---
 src/ctsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctsa.c b/src/ctsa.c
index 70c5940..dec6c1b 100644
--- a/src/ctsa.c
+++ b/src/ctsa.c
@@ -1018,7 +1018,7 @@ myarima_object search_arima(double *x, int N,int d, int D, int p_max, int q_max,
 	//printf("best_ic %g \n",best_ic);
 
 	// approximation only speeds up the search, the selected model is fitted by ML
-	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, NULL);
+	bestfit = myarima(x,N,bestorder,bestseasonal, bestK, ic, trace, 0, offset,xreg, r, &method);
 
 	if (approximation) {
 		if (bestfit->ic == DBL_MAX) {
@@ -2164,7 +2164,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 			seasonalorder[1] = D;
 			seasonalorder[2] = results[icindex[i]*8 + 5];
 			seasonalorder[3] = s;
-			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, NULL);
+			fit->myarima = myarima(x,N,order,seasonalorder,results[icindex[i]*8 + 6], ic, trace, 0, offset,xreg, r, &amethod);
 
 			if (fit->myarima->ic < DBL_MAX) {
 				best_ic = fit->myarima->ic;
@@ -2189,7 +2189,7 @@ aa_ret_object auto_arima1(double *y, int N, int *ordermax, int *seasonalmax,int
 
 	// Refit The Best Model
 
-	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, NULL);
+	fit->myarima = myarima(x,N,bestorder,bestseasonalorder,bestconstant, ic, trace, iapprox, offset,xreg, r, iapprox ? NULL : &amethod);
 
 	
 
-- 
2.43.0

