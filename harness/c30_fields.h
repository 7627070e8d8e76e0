/* Field lists shared by the two translation units of the C30 driver. FI_: int, FD_: double, FP_: pointer. */
#define F_ARIMA(FI_, FD_, FP_) FI_(N) FI_(Nused) FI_(method) FI_(optmethod) FI_(p) FI_(d) FI_(q) FI_(M) FI_(ncoeff) FP_(phi) FP_(theta) FP_(vcov) FI_(lvcov) FP_(res) FD_(mean) FD_(var) FD_(loglik) FD_(aic) FI_(retval)
#define F_SARIMA(FI_, FD_, FP_) FI_(N) FI_(Nused) FI_(method) FI_(optmethod) FI_(p) FI_(d) FI_(q) FI_(s) FI_(P) FI_(D) FI_(Q) FI_(M) FI_(ncoeff) FP_(phi) FP_(theta) FP_(PHI) FP_(THETA) FP_(vcov) FI_(lvcov) FP_(res) FD_(mean) FD_(var) FD_(loglik) FD_(aic) FI_(retval)
#define F_SARIMAX(FI_, FD_, FP_) FI_(N) FI_(Nused) FI_(method) FI_(optmethod) FI_(p) FI_(d) FI_(q) FI_(s) FI_(P) FI_(D) FI_(Q) FI_(r) FI_(M) FI_(ncoeff) FP_(phi) FP_(theta) FP_(PHI) FP_(THETA) FP_(exog) FP_(vcov) FI_(lvcov) FP_(res) FD_(mean) FD_(var) FD_(loglik) FD_(aic) FI_(retval) FI_(start) FI_(imean)
#define F_AUTO(FI_, FD_, FP_) FI_(N) FI_(Nused) FI_(method) FI_(optmethod) FI_(pmax) FI_(dmax) FI_(qmax) FI_(Pmax) FI_(Dmax) FI_(Qmax) FI_(p) FI_(d) FI_(q) FI_(s) FI_(P) FI_(D) FI_(Q) FI_(r) FI_(M) FI_(ncoeff) FP_(phi) FP_(theta) FP_(PHI) FP_(THETA) FP_(exog) FP_(vcov) FI_(lvcov) FP_(res) FD_(mean) FD_(var) FD_(loglik) FI_(retval) FI_(imean) FI_(idrift) FI_(stationary) FI_(seasonal) FI_(Order_max) FI_(p_start) FI_(q_start) FI_(P_start) FI_(Q_start) FI_(stepwise) FI_(num_models) FI_(approximation) FI_(verbose) FD_(alpha_test) FD_(alpha_seas) FD_(sigma2) FD_(aic) FD_(bic) FD_(aicc)
#define F_AR(FI_, FD_, FP_) FI_(N) FI_(method) FI_(optmethod) FI_(p) FI_(order) FI_(ordermax) FP_(phi) FP_(res) FD_(mean) FD_(var) FI_(retval)
