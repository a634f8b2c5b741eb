"""(model, fixed parameters, minimiser) for which the documented start values lead to the generating profile, and the required precision in log density
(measured on models around those of the check, widened tenfold)."""
EASY = {
    ('alpha_beta_gamma', (), 'L-BFGS-B'): 3e-02,
    ('alpha_beta_gamma', ('alpha',), 'Nelder-Mead'): 4e-02,
    ('alpha_beta_gamma', ('alpha',), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 'SLSQP'): 1e-02,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 'TNC'): 6e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'SLSQP'): 6e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'Powell'): 5e-02,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'SLSQP'): 1e-02,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'TNC'): 4e-03,
    ('alpha_beta_gamma', ('alpha', 'beta', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'SLSQP'): 8e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'TNC'): 2e-03,
    ('alpha_beta_gamma', ('alpha', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'SLSQP'): 1e-02,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'TNC'): 6e-02,
    ('alpha_beta_gamma', ('alpha', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('beta',), 'Nelder-Mead'): 3e-02,
    ('alpha_beta_gamma', ('beta',), 'SLSQP'): 7e-02,
    ('alpha_beta_gamma', ('beta',), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'gamma'), 'L-BFGS-B'): 2e-02,
    ('alpha_beta_gamma', ('beta', 'gamma'), 'SLSQP'): 8e-02,
    ('alpha_beta_gamma', ('beta', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'gamma', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('beta', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('gamma', 'r_s'), 'SLSQP'): 2e-02,
    ('alpha_beta_gamma', ('gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('r_s',), 'L-BFGS-B'): 3e-02,
    ('alpha_beta_gamma', ('r_s',), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s',), 'L-BFGS-B'): 5e-02,
    ('alpha_beta_gamma', ('rho_s',), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'SLSQP'): 2e-02,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'TNC'): 6e-02,
    ('alpha_beta_gamma', ('rho_s', 'alpha'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta'), 'Nelder-Mead'): 2e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta'), 'SLSQP'): 1e-02,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta'), 'TNC'): 8e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'Nelder-Mead'): 7e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'SLSQP'): 3e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'SLSQP'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'beta', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma'), 'SLSQP'): 8e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma'), 'TNC'): 8e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'SLSQP'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'r_s'), 'SLSQP'): 2e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'r_s'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'alpha', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'SLSQP'): 2e-02,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'TNC'): 5e-02,
    ('alpha_beta_gamma', ('rho_s', 'beta'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma'), 'SLSQP'): 2e-02,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma'), 'TNC'): 2e-02,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma', 'r_s'), 'SLSQP'): 3e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'Powell'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'SLSQP'): 8e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'TNC'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'beta', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma', 'r_s'), 'SLSQP'): 6e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma', 'r_s'), 'TNC'): 3e-03,
    ('alpha_beta_gamma', ('rho_s', 'gamma', 'r_s'), 'trust-constr'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('alpha_beta_gamma', ('rho_s', 'r_s'), 'SLSQP'): 1e-02,
    ('alpha_beta_gamma', ('rho_s', 'r_s'), 'TNC'): 2e-02,
    ('alpha_beta_gamma', ('rho_s', 'r_s'), 'trust-constr'): 1e-03,
    ('einasto', (), 'L-BFGS-B'): 1e-03,
    ('einasto', (), 'Nelder-Mead'): 2e-02,
    ('einasto', (), 'SLSQP'): 2e-02,
    ('einasto', (), 'trust-constr'): 1e-03,
    ('einasto', ('alpha',), 'L-BFGS-B'): 1e-03,
    ('einasto', ('alpha',), 'Nelder-Mead'): 1e-03,
    ('einasto', ('alpha',), 'SLSQP'): 9e-03,
    ('einasto', ('alpha',), 'TNC'): 1e-02,
    ('einasto', ('alpha',), 'trust-constr'): 1e-03,
    ('einasto', ('alpha', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('einasto', ('alpha', 'r_s'), 'Nelder-Mead'): 2e-03,
    ('einasto', ('alpha', 'r_s'), 'Powell'): 1e-03,
    ('einasto', ('alpha', 'r_s'), 'SLSQP'): 3e-03,
    ('einasto', ('alpha', 'r_s'), 'TNC'): 1e-03,
    ('einasto', ('alpha', 'r_s'), 'trust-constr'): 1e-03,
    ('einasto', ('r_s',), 'L-BFGS-B'): 1e-03,
    ('einasto', ('r_s',), 'Nelder-Mead'): 2e-03,
    ('einasto', ('r_s',), 'Powell'): 1e-03,
    ('einasto', ('r_s',), 'SLSQP'): 8e-03,
    ('einasto', ('r_s',), 'TNC'): 5e-03,
    ('einasto', ('r_s',), 'trust-constr'): 1e-03,
    ('einasto', ('rho_s',), 'L-BFGS-B'): 1e-03,
    ('einasto', ('rho_s',), 'Nelder-Mead'): 1e-03,
    ('einasto', ('rho_s',), 'SLSQP'): 9e-03,
    ('einasto', ('rho_s',), 'TNC'): 7e-03,
    ('einasto', ('rho_s',), 'trust-constr'): 1e-03,
    ('einasto', ('rho_s', 'alpha'), 'L-BFGS-B'): 1e-03,
    ('einasto', ('rho_s', 'alpha'), 'Nelder-Mead'): 6e-03,
    ('einasto', ('rho_s', 'alpha'), 'Powell'): 1e-03,
    ('einasto', ('rho_s', 'alpha'), 'SLSQP'): 8e-03,
    ('einasto', ('rho_s', 'alpha'), 'TNC'): 1e-03,
    ('einasto', ('rho_s', 'alpha'), 'trust-constr'): 1e-03,
    ('einasto', ('rho_s', 'r_s'), 'L-BFGS-B'): 1e-03,
    ('einasto', ('rho_s', 'r_s'), 'Nelder-Mead'): 1e-03,
    ('einasto', ('rho_s', 'r_s'), 'Powell'): 1e-03,
    ('einasto', ('rho_s', 'r_s'), 'SLSQP'): 7e-03,
    ('einasto', ('rho_s', 'r_s'), 'TNC'): 1e-03,
    ('einasto', ('rho_s', 'r_s'), 'trust-constr'): 1e-03,
    ('hernquist', (), 'L-BFGS-B'): 1e-03,
    ('hernquist', (), 'Nelder-Mead'): 1e-03,
    ('hernquist', (), 'SLSQP'): 1e-02,
    ('hernquist', (), 'TNC'): 2e-02,
    ('hernquist', (), 'trust-constr'): 1e-03,
    ('hernquist', ('r_s',), 'L-BFGS-B'): 1e-03,
    ('hernquist', ('r_s',), 'Nelder-Mead'): 1e-03,
    ('hernquist', ('r_s',), 'Powell'): 1e-03,
    ('hernquist', ('r_s',), 'SLSQP'): 6e-03,
    ('hernquist', ('r_s',), 'TNC'): 1e-03,
    ('hernquist', ('r_s',), 'trust-constr'): 1e-03,
    ('hernquist', ('rho_s',), 'L-BFGS-B'): 1e-03,
    ('hernquist', ('rho_s',), 'Nelder-Mead'): 1e-02,
    ('hernquist', ('rho_s',), 'Powell'): 3e-03,
    ('hernquist', ('rho_s',), 'SLSQP'): 9e-03,
    ('hernquist', ('rho_s',), 'TNC'): 1e-03,
    ('hernquist', ('rho_s',), 'trust-constr'): 1e-03,
    ('nfw', (), 'L-BFGS-B'): 1e-03,
    ('nfw', (), 'Nelder-Mead'): 1e-03,
    ('nfw', (), 'SLSQP'): 1e-02,
    ('nfw', (), 'trust-constr'): 1e-03,
    ('nfw', ('r_s',), 'L-BFGS-B'): 1e-03,
    ('nfw', ('r_s',), 'Nelder-Mead'): 1e-03,
    ('nfw', ('r_s',), 'Powell'): 1e-03,
    ('nfw', ('r_s',), 'SLSQP'): 6e-03,
    ('nfw', ('r_s',), 'TNC'): 1e-03,
    ('nfw', ('r_s',), 'trust-constr'): 1e-03,
    ('nfw', ('rho_s',), 'L-BFGS-B'): 1e-03,
    ('nfw', ('rho_s',), 'Nelder-Mead'): 2e-03,
    ('nfw', ('rho_s',), 'Powell'): 9e-03,
    ('nfw', ('rho_s',), 'SLSQP'): 3e-03,
    ('nfw', ('rho_s',), 'TNC'): 1e-03,
    ('nfw', ('rho_s',), 'trust-constr'): 1e-03,
}
