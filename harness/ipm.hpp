#pragma once
#include <Eigen/Dense>

/// dense interior point method: min d'Hd/2 s.t. Ed = e, Gd <= h
struct Ipm
{
  Eigen::VectorXd d, lam;  // solution, multipliers of the inequalities
  bool ok{false};
  Ipm(const Eigen::MatrixXd & H, const Eigen::MatrixXd & E, const Eigen::VectorXd & e, const Eigen::MatrixXd & G, const Eigen::VectorXd & h)
  {
    const long n = H.rows(), p = E.rows(), m = G.rows();
    d.setZero(n);
    Eigen::VectorXd y = Eigen::VectorXd::Zero(p), z = Eigen::VectorXd::Ones(m), s = Eigen::VectorXd::Ones(m);
    const double sc = 1 + std::max({H.cwiseAbs().maxCoeff(), e.size() ? e.cwiseAbs().maxCoeff() : 0, m ? h.cwiseAbs().maxCoeff() : 0});
    Eigen::MatrixXd K(n + p, n + p);
    for (int it = 0; it < 120; ++it) {
      const Eigen::VectorXd rd = H * d + E.transpose() * y + G.transpose() * z, rp = E * d - e, rg = G * d + s - h;
      const double mu = m ? s.dot(z) / double(m) : 0;
      const double re = std::max({rd.cwiseAbs().maxCoeff(), p ? rp.cwiseAbs().maxCoeff() : 0., m ? rg.cwiseAbs().maxCoeff() : 0.});
      if (re < 1e-10 * sc && mu < 1e-13 * sc) { ok = true, lam = z; return; }
      K.setZero();
      K.topLeftCorner(n, n) = H;
      if (m) K.topLeftCorner(n, n) += G.transpose() * z.cwiseQuotient(s).asDiagonal() * G;
      K.topRightCorner(n, p) = E.transpose(), K.bottomLeftCorner(p, n) = E;

      const Eigen::PartialPivLU<Eigen::MatrixXd> lu(K);
      auto step = [&](const Eigen::VectorXd & rc, Eigen::VectorXd & dd, Eigen::VectorXd & dy, Eigen::VectorXd & dz, Eigen::VectorXd & ds) {
        // s dz + z ds = -rc ; ds = -rg - G dd
        Eigen::VectorXd b(n + p);
        b.head(n) = -rd;
        if (m) b.head(n) -= G.transpose() * ((z.cwiseProduct(rg) - rc).cwiseQuotient(s));
        b.tail(p) = -rp;
        Eigen::VectorXd v = lu.solve(b);
        v += lu.solve(b - K * v);
        dd = v.head(n), dy = v.tail(p);
        ds = -rg - G * dd;
        dz = (-rc - z.cwiseProduct(ds)).cwiseQuotient(s);
      };
      auto len = [&](const Eigen::VectorXd & dz, const Eigen::VectorXd & ds) {
        double a = 1;
        for (long i = 0; i < m; ++i) {
          if (dz(i) < 0) a = std::min(a, -z(i) / dz(i));
          if (ds(i) < 0) a = std::min(a, -s(i) / ds(i));
        }
        return a;
      };
      Eigen::VectorXd dd, dy, dz, ds;
      step(s.cwiseProduct(z), dd, dy, dz, ds);
      if (m) {
        const double a  = len(dz, ds);
        const double ma = (s + a * ds).dot(z + a * dz) / double(m), sg = std::pow(ma / mu, 3);
        const Eigen::VectorXd rc = s.cwiseProduct(z) + ds.cwiseProduct(dz) - Eigen::VectorXd::Constant(m, sg * mu);
        step(rc, dd, dy, dz, ds);
      }
      const double a = m ? std::min(1., 0.99 * len(dz, ds)) : 1.;
      d += a * dd, y += a * dy, z += a * dz, s += a * ds;
      if (!d.allFinite()) return;
    }
  }
};
