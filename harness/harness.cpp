// Scenario driver: executes scenarios (one per line, whitespace-separated tokens) on the real
// arCTIc sources and writes one result line per scenario. Only the public classes and functions
// of /repo/include are used, so that a refactoring of their insides does not matter.
//
// Every scenario runs in a forked child: a crash, an exit() or an exception of the code under
// test is an observable outcome ("crash", "exit", "throw") of that scenario alone.
//
// A result line is:  <id> <outcome> <token>...   where doubles are 16 hex digits (IEEE bits).
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <omp.h>

#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <valarray>
#include <vector>

#include "ccd.hpp"
#include "cti.hpp"
#include "read_noise.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"

typedef std::valarray<std::valarray<double> > Image;

static std::string out;
static void put(double x) {
    uint64_t b;
    memcpy(&b, &x, 8);
    char buf[24];
    snprintf(buf, sizeof buf, " %016llx", (unsigned long long)b);
    out += buf;
}
static void puti(long i) { out += " " + std::to_string(i); }
static void puts_(const char* s) { out += std::string(" ") + s; }

struct In {
    std::vector<std::string> t;
    size_t p = 0;
    std::string s() {
        if (p >= t.size()) { fprintf(stderr, "harness: scenario too short\n"); _exit(77); }
        return t[p++];
    }
    double d() { return strtod(s().c_str(), nullptr); }
    int i() { return (int)strtol(s().c_str(), nullptr, 10); }
    bool more() { return p < t.size(); }
};

struct Traps {
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icco;
    std::valarray<TrapSlowCaptureContinuum> scco;
};
template <class T>
static std::valarray<T> va(std::vector<T>& v) {
    if (v.empty()) return std::valarray<T>();
    return std::valarray<T>(v.data(), v.size());
}
// counts of the 4 kinds, then the parameters
static void read_traps(In& in, Traps& tr) {
    int n = in.i();
    std::vector<TrapInstantCapture> a;
    for (int k = 0; k < n; k++) {
        double d = in.d(), t = in.d(), x = in.d(), y = in.d();
        a.push_back(TrapInstantCapture(d, t, x, y));
    }
    n = in.i();
    std::vector<TrapSlowCapture> b;
    for (int k = 0; k < n; k++) {
        double d = in.d(), t = in.d(), c = in.d();
        b.push_back(TrapSlowCapture(d, t, c));
    }
    n = in.i();
    std::vector<TrapInstantCaptureContinuum> c;
    for (int k = 0; k < n; k++) {
        double d = in.d(), t = in.d(), s = in.d();
        c.push_back(TrapInstantCaptureContinuum(d, t, s));
    }
    n = in.i();
    std::vector<TrapSlowCaptureContinuum> e;
    for (int k = 0; k < n; k++) {
        double d = in.d(), t = in.d(), s = in.d(), cc = in.d();
        e.push_back(TrapSlowCaptureContinuum(d, t, s, cc));
    }
    tr.ic = va(a);
    tr.sc = va(b);
    tr.icco = va(c);
    tr.scco = va(e);
}

struct Dir {
    bool present = false;
    std::valarray<double> dwell;
    std::unique_ptr<ROE> roe;
    std::unique_ptr<CCD> ccd;
    Traps tr;
    bool null_empty = true;  // pass nullptr for an empty kind, or a pointer to an empty array
    int express = 0, offset = 0, w0 = 0, w1 = -1, prune_f = 20;
    double prune_n = 1e-10;
    std::valarray<TrapInstantCapture>* ic() { return null_empty && !tr.ic.size() ? nullptr : &tr.ic; }
    std::valarray<TrapSlowCapture>* sc() { return null_empty && !tr.sc.size() ? nullptr : &tr.sc; }
    std::valarray<TrapInstantCaptureContinuum>* icco() { return null_empty && !tr.icco.size() ? nullptr : &tr.icco; }
    std::valarray<TrapSlowCaptureContinuum>* scco() { return null_empty && !tr.scco.size() ? nullptr : &tr.scco; }
};

static std::unique_ptr<ROE> read_roe(In& in, std::valarray<double>& dwell) {
    // type n_dwell dwell.. prescan overscan ebc eft fra intm npumps
    int type = in.i();
    int nd = in.i();
    dwell.resize(nd);
    for (int k = 0; k < nd; k++) dwell[k] = in.d();
    int prescan = in.i(), overscan = in.i(), ebc = in.i(), eft = in.i(), fra = in.i(), intm = in.i(),
        np = in.i();
    if (type == 0) return std::unique_ptr<ROE>(new ROE(dwell, prescan, overscan, ebc, eft, fra, intm));
    if (type == 1) return std::unique_ptr<ROE>(new ROEChargeInjection(dwell, prescan, overscan, ebc, fra, intm));
    return std::unique_ptr<ROE>(new ROETrapPumping(dwell, np, eft, intm));
}
static CCDPhase read_phase(In& in) {
    double a = in.d(), b = in.d(), c = in.d(), d = in.d();
    return CCDPhase(a, b, c, d);
}
static std::unique_ptr<CCD> read_ccd(In& in) {
    int n = in.i();
    std::vector<CCDPhase> ph;
    for (int k = 0; k < n; k++) ph.push_back(read_phase(in));
    int m = in.i();
    std::valarray<double> f(m);
    for (int k = 0; k < m; k++) f[k] = in.d();
    if (m == 0) return std::unique_ptr<CCD>(new CCD(ph[0]));
    std::valarray<CCDPhase> p = va(ph);
    return std::unique_ptr<CCD>(new CCD(p, f));
}
static void read_dir(In& in, Dir& d) {
    d.present = in.i();
    if (!d.present) return;
    d.roe = read_roe(in, d.dwell);
    d.ccd = read_ccd(in);
    read_traps(in, d.tr);
    d.null_empty = in.i();
    d.express = in.i();
    d.offset = in.i();
    d.w0 = in.i();
    d.w1 = in.i();
    d.prune_n = in.d();
    d.prune_f = in.i();
}
static Image read_image(In& in) {
    int r = in.i(), c = in.i();
    Image im(std::valarray<double>(0.0, c), r);
    for (int a = 0; a < r; a++)
        for (int b = 0; b < c; b++) im[a][b] = in.d();
    return im;
}
static void put_image(Image& im) {
    puti(im.size());
    puti(im.size() ? im[0].size() : 0);
    for (size_t a = 0; a < im.size(); a++) {
        if (im[a].size() != im[0].size()) { puts_("ragged"); return; }
        for (size_t b = 0; b < im[a].size(); b++) put(im[a][b]);
    }
}

// The same settings by way of copies.  how: 1 copies made by construction, 2 and 3 assigned over objects with other
// settings (of as many steps, of another number), 4 copies taken before the originals are used and changed,
// 5 assigned, then the originals changed, 6 assigned to themselves
template <class R>
static std::unique_ptr<ROE> copy_roe(R& a, int how, std::valarray<double>& other_dwell) {
    R* b;
    if (how == 1 || how == 4) {
        b = new R(a);
    } else if (how == 6) {
        R& alias = a;
        a = alias;
        b = new R(a);
    } else {
        b = new R(other_dwell);
        b->prescan_offset = 5;
        b->overscan_start = 3;
        b->empty_traps_between_columns = !a.empty_traps_between_columns;
        b->empty_traps_for_first_transfers = !a.empty_traps_for_first_transfers;
        b->force_release_away_from_readout = !a.force_release_away_from_readout;
        b->use_integer_express_matrix = !a.use_integer_express_matrix;
        b->n_pumps = 7;
        b->set_clock_sequence();
        b->set_express_matrix_from_rows_and_express(9, 2, 0);
        b->set_store_trap_states_matrix();
        *b = a;
    }
    if (how == 4) {
        a.set_clock_sequence();
        a.set_express_matrix_from_rows_and_express(4, 3, 1);
        a.set_store_trap_states_matrix();
    }
    if (how == 4 || how == 5) {
        a.dwell_times *= 3.0;
        a.prescan_offset += 2;
        a.overscan_start = 2;
        a.empty_traps_between_columns = !a.empty_traps_between_columns;
        a.use_integer_express_matrix = !a.use_integer_express_matrix;
        a.n_pumps += 1;
    }
    return std::unique_ptr<ROE>(b);
}
template <class T>
static void copy_traps(std::valarray<T>& a, int how) {
    if (!a.size()) return;
    if (how == 1 || how == 4) {
        std::valarray<T> b(a);
        a = b;
        return;
    }
    if (how == 6) {
        for (size_t k = 0; k < a.size(); k++) {
            T& alias = a[k];
            a[k] = alias;
        }
        return;
    }
    std::valarray<T> b(a[a.size() - 1], how == 3 ? a.size() + 2 : a.size());
    for (size_t k = 0; k < b.size(); k++) b[k].density += 3.0;
    b = a;
    for (size_t k = 0; k < a.size(); k++) a[k].density += 1.0;
    a = b;
}
static void copies(Dir& d, int how) {
    if (!how || !d.present) return;
    std::valarray<double> other(0.37, d.dwell.size() + (how == 3 ? 2 : 0));
    for (size_t k = 0; k < other.size(); k++) other[k] += 0.1 * k;
    std::unique_ptr<ROE> r;
    if (ROEChargeInjection* c = dynamic_cast<ROEChargeInjection*>(d.roe.get())) r = copy_roe(*c, how, other);
    else if (ROETrapPumping* t = dynamic_cast<ROETrapPumping*>(d.roe.get())) r = copy_roe(*t, how, other);
    else r = copy_roe(*d.roe, how, other);
    d.roe = std::move(r);
    std::unique_ptr<CCD> c;
    if (how == 1 || how == 4) {
        c.reset(new CCD(*d.ccd));
    } else if (how == 6) {
        CCD& alias = *d.ccd;
        *d.ccd = alias;
        c.reset(new CCD(*d.ccd));
    } else {
        std::valarray<CCDPhase> ph(CCDPhase(333.0, 3.0, 0.3), how == 3 ? d.ccd->n_phases + 1 : d.ccd->n_phases);
        std::valarray<double> f(1.0 / ph.size(), ph.size());
        c.reset(new CCD(ph, f));
        *c = *d.ccd;
    }
    if (how == 4 || how == 5) {
        d.ccd->fraction_of_traps_per_phase *= 0.5;
        d.ccd->phases[0].full_well_depth *= 0.5;
    }
    d.ccd = std::move(c);
    copy_traps(d.tr.ic, how);
    copy_traps(d.tr.sc, how);
    copy_traps(d.tr.icco, how);
    copy_traps(d.tr.scco, how);
}

// img mode(0 clock,1 add,2 remove) iterations neg verbosity threads copies image dirP dirS
static void do_img(In& in) {
    int mode = in.i(), iters = in.i(), neg = in.i(), verb = in.i(), threads = in.i(), how = in.i();
    Image im = read_image(in);
    Dir P, S;
    read_dir(in, P);
    read_dir(in, S);
    copies(P, how);
    copies(S, how);
    set_verbosity(verb);
    omp_set_num_threads(threads);
    Image res;
    Image keep = im;
    if (mode == 0) {
        // w0/w1 of S (even if absent) are the column window
        int c0 = in.i(), c1 = in.i();
        res = clock_charge_in_one_direction(
            im, P.roe.get(), P.ccd.get(), P.ic(), P.sc(), P.icco(), P.scco(), P.express, P.offset,
            P.w0, P.w1, c0, c1, 0, -1, P.prune_n, P.prune_f, neg, verb >= 1);
    } else if (mode == 1) {
        res = add_cti(
            im, P.roe.get(), P.ccd.get(), P.present ? P.ic() : nullptr, P.present ? P.sc() : nullptr,
            P.present ? P.icco() : nullptr, P.present ? P.scco() : nullptr, P.express, P.offset, P.w0,
            P.w1, 0, -1, P.prune_n, P.prune_f, S.roe.get(), S.ccd.get(), S.present ? S.ic() : nullptr,
            S.present ? S.sc() : nullptr, S.present ? S.icco() : nullptr, S.present ? S.scco() : nullptr,
            S.express, S.offset, S.w0, S.w1, 0, -1, S.prune_n, S.prune_f, neg, verb, 0);
    } else {
        res = remove_cti(
            im, iters, P.roe.get(), P.ccd.get(), P.present ? P.ic() : nullptr,
            P.present ? P.sc() : nullptr, P.present ? P.icco() : nullptr,
            P.present ? P.scco() : nullptr, P.express, P.offset, P.w0, P.w1, 0, -1, P.prune_n,
            P.prune_f, S.roe.get(), S.ccd.get(), S.present ? S.ic() : nullptr,
            S.present ? S.sc() : nullptr, S.present ? S.icco() : nullptr,
            S.present ? S.scco() : nullptr, S.express, S.offset, S.w0, S.w1, 0, -1, S.prune_n,
            S.prune_f, neg);
    }
    put_image(res);
    // Was the caller's image left alone?
    int same = keep.size() == im.size();
    for (size_t a = 0; same && a < im.size(); a++)
        for (size_t b = 0; same && b < im[a].size(); b++)
            if (memcmp(&keep[a][b], &im[a][b], sizeof(double))) same = 0;
    puti(same);
}

// mix n img-scenarios : calls on different images with different settings, one after another in
// the same process
static void do_mix(In& in) {
    int n = in.i();
    puti(n);
    for (int k = 0; k < n; k++) do_img(in);
}

// imgseq n (img-scenario with image given)... : several calls that share the same objects
// seq: image dirP dirS, ncalls, then per call: mode iterations neg verb threads
static void do_seq(In& in) {
    Image im = read_image(in);
    Dir P, S;
    read_dir(in, P);
    read_dir(in, S);
    int n = in.i();
    puti(n);
    for (int k = 0; k < n; k++) {
        int mode = in.i(), iters = in.i(), neg = in.i(), verb = in.i(), threads = in.i();
        set_verbosity(verb);
        omp_set_num_threads(threads);
        Image res;
        if (mode == 1)
            res = add_cti(
                im, P.roe.get(), P.ccd.get(), P.present ? P.ic() : nullptr, P.present ? P.sc() : nullptr,
                P.present ? P.icco() : nullptr, P.present ? P.scco() : nullptr, P.express, P.offset, P.w0,
                P.w1, 0, -1, P.prune_n, P.prune_f, S.roe.get(), S.ccd.get(), S.present ? S.ic() : nullptr,
                S.present ? S.sc() : nullptr, S.present ? S.icco() : nullptr, S.present ? S.scco() : nullptr,
                S.express, S.offset, S.w0, S.w1, 0, -1, S.prune_n, S.prune_f, neg, verb, 0);
        else
            res = remove_cti(
                im, iters, P.roe.get(), P.ccd.get(), P.present ? P.ic() : nullptr,
                P.present ? P.sc() : nullptr, P.present ? P.icco() : nullptr,
                P.present ? P.scco() : nullptr, P.express, P.offset, P.w0, P.w1, 0, -1, P.prune_n,
                P.prune_f, S.roe.get(), S.ccd.get(), S.present ? S.ic() : nullptr,
                S.present ? S.sc() : nullptr, S.present ? S.icco() : nullptr,
                S.present ? S.scco() : nullptr, S.express, S.offset, S.w0, S.w1, 0, -1, S.prune_n,
                S.prune_f, neg);
        put_image(res);
    }
    put_image(im);
}

// mgr kind(ic|sc|icco|scco) max_transfers phase dwell fraction traps nops (t n | s | r | x | p v)...
template <class M>
static void run_mgr(In& in, M m, double fraction) {
    m.trap_densities *= fraction;
    m.setup();
    puti(m.n_watermarks);
    int n = in.i();
    puti(n);
    for (int k = 0; k < n; k++) {
        std::string op = in.s();
        double ret = 0.0;
        if (op == "t")
            ret = m.n_electrons_released_and_captured(in.d());
        else if (op == "s")
            m.store_trap_states();
        else if (op == "r")
            m.restore_trap_states();
        else if (op == "x")
            m.reset_trap_states();
        else if (op == "p")
            m.prune_watermarks(in.d());
        put(ret);
        put(m.n_trapped_electrons_from_watermarks(m.watermark_volumes, m.watermark_fills));
        int f = m.i_first_active_wmk, na = m.n_active_watermarks;
        // capacity and the active region, lowest first
        puti(f >= 0 && na >= 0 && f + na <= m.n_watermarks ? 1 : 0);
        puti(na);
        for (int w = f; w < f + na; w++) {
            put(m.watermark_volumes[w]);
            for (int j = 0; j < m.n_traps; j++) put(m.watermark_fills[w * m.n_traps + j]);
        }
    }
}
static void do_mgr(In& in) {
    std::string kind = in.s();
    int mt = in.i();
    CCDPhase ph = read_phase(in);
    double dwell = in.d(), fr = in.d();
    Traps tr;
    read_traps(in, tr);
    if (kind == "ic") run_mgr(in, TrapManagerInstantCapture(tr.ic, mt, ph, dwell), fr);
    if (kind == "sc") run_mgr(in, TrapManagerSlowCapture(tr.sc, mt, ph, dwell), fr);
    if (kind == "icco") run_mgr(in, TrapManagerInstantCaptureContinuum(tr.icco, mt, ph, dwell), fr);
    if (kind == "scco") run_mgr(in, TrapManagerSlowCaptureContinuum(tr.scco, mt, ph, dwell), fr);
}

// roe <roe> n_rows express offset
static void do_roe(In& in) {
    std::valarray<double> dwell;
    std::unique_ptr<ROE> r = read_roe(in, dwell);
    int rows = in.i(), express = in.i(), offset = in.i();
    r->set_clock_sequence();
    r->set_express_matrix_from_rows_and_express(rows, express, offset);
    r->set_store_trap_states_matrix();
    puti(r->n_express_passes);
    puti(r->express_matrix.size());
    for (size_t k = 0; k < r->express_matrix.size(); k++) put(r->express_matrix[k]);
    puti(r->store_trap_states_matrix.size());
    for (size_t k = 0; k < r->store_trap_states_matrix.size(); k++) puti(r->store_trap_states_matrix[k]);
    puti(r->n_steps);
    puti(r->n_phases);
    for (int a = 0; a < r->n_steps; a++)
        for (int b = 0; b < r->n_phases; b++) {
            ROEStepPhase& sp = r->clock_sequence[a][b];
            puti(sp.is_high);
            puti(sp.n_capture_pixels);
            for (int k = 0; k < sp.n_capture_pixels; k++) puti(sp.capture_from_which_pixels[k]);
            puti(sp.n_release_pixels);
            for (int k = 0; k < sp.n_release_pixels; k++) puti(sp.release_to_which_pixels[k]);
            for (int k = 0; k < sp.n_release_pixels; k++) put(sp.release_fraction_to_pixels[k]);
        }
}
// vol phase n v...
static void do_vol(In& in) {
    CCDPhase ph = read_phase(in);
    int n = in.i();
    puti(n);
    for (int k = 0; k < n; k++) put(ph.cloud_fractional_volume_from_electrons(in.d()));
}
// trap kind params.. func arg..
static void do_trap(In& in) {
    std::string kind = in.s();
    Traps tr;
    read_traps(in, tr);
    int n = in.i();
    puti(n);
    for (int k = 0; k < n; k++) {
        std::string f = in.s();
        if (kind == "ic") {
            if (f == "ff") put(tr.ic[0].fill_fraction_from_time_elapsed(in.d()));
            if (f == "ex") { double a = in.d(), b = in.d(); put(tr.ic[0].fraction_traps_exposed_per_fractional_volume(a, b)); }
        } else if (kind == "sc") {
            if (f == "ff") put(tr.sc[0].fill_fraction_from_time_elapsed(in.d()));
        } else if (kind == "icco") {
            TrapInstantCaptureContinuum& t = tr.icco[0];
            if (f == "ff") put(t.fill_fraction_from_time_elapsed(in.d()));
            if (f == "te") { double a = in.d(), b = in.d(); put(t.time_elapsed_from_fill_fraction(a, b)); }
            if (f == "prep") { double a = in.d(), b = in.d(); int c = in.i(); t.prep_fill_fraction_and_time_elapsed_tables(a, b, c); put(0); }
            if (f == "fft") put(t.fill_fraction_from_time_elapsed_table(in.d()));
            if (f == "tet") put(t.time_elapsed_from_fill_fraction_table(in.d()));
            if (f == "tef") { double a = in.d(), b = in.d(); put(t.time_elapsed_from_fill_fraction(t.fill_fraction_from_time_elapsed(a), b)); }
            if (f == "tetf") put(t.time_elapsed_from_fill_fraction_table(t.fill_fraction_from_time_elapsed_table(in.d())));
        } else {
            TrapSlowCaptureContinuum& t = tr.scco[0];
            if (f == "ff") put(t.fill_fraction_from_time_elapsed(in.d()));
            if (f == "te") { double a = in.d(), b = in.d(); put(t.time_elapsed_from_fill_fraction(a, b)); }
            if (f == "sc") { double a = in.d(), b = in.d(); put(t.fill_fraction_after_slow_capture(a, b)); }
            if (f == "prep") { double a = in.d(), b = in.d(); int c = in.i(); t.prep_fill_fraction_and_time_elapsed_tables(a, b, c); put(0); }
            if (f == "preps") { double e = in.d(), a = in.d(), b = in.d(); int c = in.i(); t.prep_fill_fraction_after_slow_capture_tables(e, a, b, c); put(0); }
            if (f == "fft") put(t.fill_fraction_from_time_elapsed_table(in.d()));
            if (f == "tet") put(t.time_elapsed_from_fill_fraction_table(in.d()));
            if (f == "tef") { double a = in.d(), b = in.d(); put(t.time_elapsed_from_fill_fraction(t.fill_fraction_from_time_elapsed(a), b)); }
            if (f == "tetf") put(t.time_elapsed_from_fill_fraction_table(t.fill_fraction_from_time_elapsed_table(in.d())));
            if (f == "sct") put(t.fill_fraction_after_slow_capture_table(in.d()));
        }
    }
}
static void do_transpose(In& in) {
    Image im = read_image(in);
    Image t = transpose(im);
    put_image(t);
    Image tt = transpose(t);
    put_image(tt);
    put_image(im);
    std::vector<double> f = flatten(im);
    puti(f.size());
    for (size_t k = 0; k < f.size(); k++) put(f[k]);
}
// txt path image : save, load, save again, load again
static void do_txt(In& in) {
    std::string path = in.s();
    Image im = read_image(in);
    save_image_to_txt(path.c_str(), im);
    Image a = load_image_from_txt(path.c_str());
    put_image(a);
    save_image_to_txt(path.c_str(), a);
    Image b = load_image_from_txt(path.c_str());
    put_image(b);
    unlink(path.c_str());
}
static void do_save(In& in) {
    std::string path = in.s();
    save_image_to_txt(path.c_str(), read_image(in));
}
static void do_load(In& in) {
    Image im = load_image_from_txt(in.s().c_str());
    put_image(im);
}
// print form path columns image : form is row (a one-dimensional array), cols (the same, so many columns) or image
static void do_print(In& in) {
    std::string form = in.s(), path = in.s();
    int n_col = in.i();
    Image im = read_image(in);
    fflush(stdout);
    int keep = dup(1), to = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(to, 1);
    if (form == "row") print_array(im[0]);
    else if (form == "cols") print_array_2D(im[0], n_col);
    else print_array_2D(im);
    fflush(stdout);
    std::cout.flush();
    dup2(keep, 1);
    close(to);
    put_image(im);
}
static void do_time(In& in) {
    struct timeval a, b;
    a.tv_sec = atol(in.s().c_str());
    a.tv_usec = in.i();
    b.tv_sec = atol(in.s().c_str());
    b.tv_usec = in.i();
    put(gettimelapsed(a, b));
}
static void do_clamp(In& in) {
    double a = in.d(), b = in.d(), c = in.d();
    put(clamp(a, b, c));
}
static void do_arange(In& in) {
    double a = in.d(), b = in.d(), c = in.d();
    std::valarray<double> r = arange(a, b, c);
    puti(r.size());
    for (size_t k = 0; k < r.size(); k++) put(r[k]);
}
// rnm sr sigmaRN ampscale rowwise image image2
static void do_rnm(In& in) {
    double s = in.d(), a = in.d();
    Image x = read_image(in), y = read_image(in);
    Image z(std::valarray<double>(0.0, x[0].size()), x.size());
    (void)s; (void)a; (void)y;
    put_image(z);
}

static void run_one(In& in) {
    std::string k = in.s();
    if (k == "img") do_img(in);
    else if (k == "seq") do_seq(in);
    else if (k == "mix") do_mix(in);
    else if (k == "mgr") do_mgr(in);
    else if (k == "roe") do_roe(in);
    else if (k == "vol") do_vol(in);
    else if (k == "trap") do_trap(in);
    else if (k == "transpose") do_transpose(in);
    else if (k == "txt") do_txt(in);
    else if (k == "load") do_load(in);
    else if (k == "save") do_save(in);
    else if (k == "print") do_print(in);
    else if (k == "time") do_time(in);
    else if (k == "clamp") do_clamp(in);
    else if (k == "arange") do_arange(in);
    else if (k == "rnm") do_rnm(in);
    else { fprintf(stderr, "harness: unknown scenario %s\n", k.c_str()); _exit(77); }
    if (in.more()) { fprintf(stderr, "harness: scenario %s too long (%zu of %zu)\n", k.c_str(), in.p, in.t.size()); _exit(77); }
}

int main() {
    std::string line;
    int devnull = open("/dev/null", O_RDWR);
    bool keep_err = getenv("HARNESS_STDERR") != nullptr;
    int hung = 0;   // scenarios that did not return: once there are some, others are not waited for as long
    while (std::getline(std::cin, line)) {
        In in;
        std::istringstream ss(line);
        std::string tok;
        while (ss >> tok) in.t.push_back(tok);
        if (in.t.empty()) continue;
        std::string id = in.s();
        int fd[2];
        if (pipe(fd)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            dup2(devnull, 1);
            if (!keep_err) dup2(devnull, 2);
            alarm(hung < 1 ? 120 : hung < 6 ? 10 : 2);
            out = "";
            int rc = 0;
            try {
                run_one(in);
            } catch (std::exception& e) {
                rc = 76;
            }
            size_t off = 0;
            while (off < out.size()) {
                ssize_t w = write(fd[1], out.data() + off, out.size() - off);
                if (w <= 0) break;
                off += w;
            }
            _exit(rc);
        }
        close(fd[1]);
        std::string res;
        char buf[65536];
        ssize_t r;
        while ((r = read(fd[0], buf, sizeof buf)) > 0) res.append(buf, r);
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        const char* outcome = "ok";
        char tmp[40];
        if (WIFSIGNALED(st)) {
            if (WTERMSIG(st) == SIGALRM) hung++;
            snprintf(tmp, sizeof tmp, "crash:%d", WTERMSIG(st));
            outcome = tmp;
        } else if (WEXITSTATUS(st) == 77) {
            outcome = "badscenario";
        } else if (WEXITSTATUS(st) == 76) {
            outcome = "throw";
        } else if (WEXITSTATUS(st) != 0) {
            snprintf(tmp, sizeof tmp, "exit:%d", WEXITSTATUS(st));
            outcome = tmp;
        }
        std::string o = strcmp(outcome, "ok") ? "" : res;
        printf("%s %s%s\n", id.c_str(), outcome, o.c_str());
    }
    return 0;
}
