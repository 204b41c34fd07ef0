package vf;

final class Special {
    /** erf by its Maclaurin series or the continued fraction of erfc; about 1e-15 relative. */
    static double erf(final double x) {
        if (Double.isNaN(x)) return x;
        final double a = Math.abs(x);
        if (a > 6.0) return Math.signum(x);
        if (a < 2.5) {
            double t = a, s = a;
            for (int n = 1; n < 200; n++) {
                t *= -a * a / n;
                final double u = t / (2 * n + 1);
                s += u;
                if (Math.abs(u) < 1e-18 * Math.abs(s)) break;
            }
            return Math.signum(x) * 2.0 / Math.sqrt(Math.PI) * s;
        }
        double f = 0.0;
        for (int n = 200; n >= 1; n--) f = (n * 0.5) / (a + f);
        return Math.signum(x) * (1.0 - Math.exp(-a * a) / Math.sqrt(Math.PI) / (a + f));
    }
    /** Stirling series after shifting the argument above 20. */
    static double lnGamma(double x) {
        if (!(x > 0)) return Double.NaN;
        double s = 0;
        while (x < 20) { s -= Math.log(x); x += 1; }
        final double y = 1 / (x * x);
        final double t = (1.0 / 12 - y * (1.0 / 360 - y * (1.0 / 1260 - y * (1.0 / 1680 - y * (1.0 / 1188 - y * 691.0 / 360360))))) / x;
        return s + (x - 0.5) * Math.log(x) - x + 0.91893853320467274178 + t;
    }
}
