import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/** Module Curve over doubles: tables of the integral over the log-normal distribution. */
public class Curve {
    static final int N = 1000;
    static double f(Value c, String k) {
        return Num.d(((RecordValue) c.toRcd()).select(new StringValue(k)));
    }
    /** integral of the standard normal weight times g(exp(ln mu + sig x)) over |x| <= 10 */
    interface G { double at(double tau); }
    static double mean(double mu, double sig, G g) {
        final int n = 600;
        double h = 20.0 / n, tot = 0.0;
        for (int i = 0; i <= n; i++) {
            double x = -10.0 + i * h;
            tot += (i == 0 || i == n ? 0.5 : 1.0) * Math.exp(-0.5 * x * x) * g.at(mu * Math.exp(sig * x));
        }
        return tot * h / Math.sqrt(2.0 * Math.PI);
    }
    static double fill(double mu, double sig, double t) {
        if (t == 0.0) return 1.0;
        if (t >= Double.MAX_VALUE) return 0.0;
        return mean(mu, sig, tau -> Math.exp(-t / tau));
    }
    static double after(double mu, double sig, double cr, double dt, double t) {
        if (cr == 0.0) return 1.0;
        return mean(mu, sig, tau -> {
            double rr = 1.0 / tau, k = cr + rr, ex = (1.0 - Math.exp(-k * dt)) / k;
            double pe = cr * ex, pf = 1.0 - rr * ex;
            double f0 = t == 0.0 ? 1.0 : t >= Double.MAX_VALUE ? 0.0 : Math.exp(-t * rr);
            return f0 * pf + (1.0 - f0) * pe;
        });
    }
    static class Table {
        double mu, sig, cr, dt, tmin, tmax, dlog;
        double[] fill = new double[N], after;
        double atMin, atMax;
        Table(Value c) {
            mu = f(c, "mu"); sig = f(c, "sig"); cr = f(c, "cr"); dt = f(c, "dt");
            tmin = f(c, "tmin"); tmax = f(c, "tmax");
            dlog = (Math.log(tmax) - Math.log(tmin)) / (N - 1);
            for (int i = 0; i < N; i++) fill[i] = Curve.fill(mu, sig, time(i));
        }
        double time(double i) { return Math.exp(Math.log(tmax) - i * dlog); }
        synchronized void slow() {
            if (after != null) return;
            double[] a = new double[N];
            for (int i = 0; i < N; i++) a[i] = Curve.after(mu, sig, cr, dt, time(i));
            atMin = Curve.after(mu, sig, cr, dt, tmin);
            atMax = Curve.after(mu, sig, cr, dt, Double.MAX_VALUE);
            after = a;
        }
        double look(double[] tab, double t) {
            double x = (Math.log(tmax) - Math.log(t)) / dlog;
            int i = (int) Math.max(0, Math.min(N - 2, Math.floor(x)));
            x -= i;
            double r = (1.0 - x) * tab[i] + x * tab[i + 1];
            return Math.max(0.0, Math.min(1.0, r));
        }
        double timeOf(double phi) {
            if (phi == 1.0) return 0.0;
            if (phi == 0.0) return Double.MAX_VALUE;
            int lo = 0, hi = N; // number of entries <= phi
            while (lo < hi) {
                int m = (lo + hi) / 2;
                if (phi < fill[m]) hi = m; else lo = m + 1;
            }
            int i = Math.max(0, Math.min(N - 2, lo - 1));
            double x = (phi - fill[i]) / (fill[i + 1] - fill[i]);
            return time(i + x);
        }
    }
    static final ConcurrentHashMap<String, Table> cache = new ConcurrentHashMap<>();
    static Table table(Value c) {
        String k = f(c, "mu") + "," + f(c, "sig") + "," + f(c, "cr") + "," + f(c, "dt") + "," + f(c, "tmin") + "," + f(c, "tmax");
        return cache.computeIfAbsent(k, x -> new Table(c));
    }
    public static Value CFill(Value c, Value t) {
        double x = Num.d(t);
        if (x == 0.0) return Num.n(1.0);
        if (x >= Double.MAX_VALUE) return Num.n(0.0);
        Table b = table(c);
        return Num.n(b.look(b.fill, x));
    }
    public static Value CTime(Value c, Value phi) { return Num.n(table(c).timeOf(Num.d(phi))); }
    public static Value CAfter(Value c, Value t) {
        double x = Num.d(t);
        Table b = table(c);
        b.slow();
        if (x == 0.0) return Num.n(b.atMin);
        if (x >= Double.MAX_VALUE) return Num.n(b.atMax);
        return Num.n(b.look(b.after, x));
    }
    public static Value CExact(Value c, Value t) { return Num.n(fill(f(c, "mu"), f(c, "sig"), Num.d(t))); }
    public static Value CExactAfter(Value c, Value t) {
        return Num.n(after(f(c, "mu"), f(c, "sig"), f(c, "cr"), f(c, "dt"), Num.d(t)));
    }
}
