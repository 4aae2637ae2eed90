// Fourier-Motzkin elimination with integer tightening, for the numeric domain of palm/lin.py.
//
// int fm(...): 1 when the system of inequalities sum(coef * sym) + const >= 0 certainly has no
// integer solution, 0 otherwise; with 0, *has is 1 when `model` holds an integer solution.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <unordered_map>
#include <vector>

typedef __int128 big;
static const int64_t CMAX = (int64_t)1 << 40;
static const big KMAX = (big)1 << 100;

struct Row {
    std::vector<std::pair<int, int64_t>> t;   // sorted by symbol
    big c;
    uint64_t h[4];                            // inputs it stems from
};

static int64_t gcd64(int64_t a, int64_t b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { int64_t r = a % b; a = b; b = r; }
    return a;
}

static big fdiv(big a, int64_t b) {           // floor, b > 0
    big q = a / b;
    if (a % b != 0 && a < 0) q -= 1;
    return q;
}

static uint64_t hash_terms(const std::vector<std::pair<int, int64_t>> &t, int64_t sign) {
    uint64_t h = 1469598103934665603ull;
    for (auto &p : t) {
        h = (h ^ (uint64_t)p.first) * 1099511628211ull;
        h = (h ^ (uint64_t)(p.second * sign)) * 1099511628211ull;
        h ^= h >> 29;
    }
    return h;
}

struct Table {
    std::vector<Row> rows;
    std::unordered_map<uint64_t, std::vector<int>> ix;
    bool unsat = false;

    int find(const std::vector<std::pair<int, int64_t>> &t, int64_t sign) {
        auto it = ix.find(hash_terms(t, sign));
        if (it == ix.end()) return -1;
        for (int k : it->second) {
            auto &o = rows[k].t;
            if (o.size() != t.size()) continue;
            bool same = true;
            for (size_t i = 0; i < t.size() && same; i++) same = o[i].first == t[i].first && o[i].second == t[i].second * sign;
            if (same) return k;
        }
        return -1;
    }

    void add(Row &&r) {
        if (r.t.empty()) {
            if (r.c < 0) unsat = true;
            return;
        }
        int64_t g = 0;
        for (auto &p : r.t) { g = gcd64(g, p.second); if (g == 1) break; }
        if (g > 1) {
            for (auto &p : r.t) p.second /= g;
            r.c = fdiv(r.c, g);
        }
        for (auto &p : r.t) if (p.second > CMAX || p.second < -CMAX) return;
        if (r.c > KMAX || r.c < -KMAX) return;
        int n = find(r.t, -1);
        if (n >= 0 && rows[n].c + r.c < 0) { unsat = true; return; }
        int k = find(r.t, 1);
        if (k >= 0) {
            if (r.c < rows[k].c) { rows[k].c = r.c; memcpy(rows[k].h, r.h, sizeof r.h); }
            return;
        }
        ix[hash_terms(r.t, 1)].push_back((int)rows.size());
        rows.push_back(std::move(r));
    }
};

// A rational point by the simplex method in floating point; whatever it suggests is verified exactly.
// 1: certainly no solution; 2: `model` holds an integer solution; 0: neither.
static int simplex(const std::vector<Row> &rows, int n, int64_t *model, int *frac, double *at) {
    *frac = -1;
    int m = (int)rows.size();
    if (m == 0 || (long)m * n > 40000) return 0;
    // rows: slack i = sum a[i][j] * nonbasic j, slack i >= lo[i]; ids: symbols 0..n-1, slacks n..n+m-1
    std::vector<double> a((size_t)m * n, 0.0), lo(n + m, 0.0), val(n + m, 0.0);
    std::vector<int> basic(m), non(n);
    for (int j = 0; j < n; j++) non[j] = j;
    for (int i = 0; i < m; i++) {
        basic[i] = n + i;
        lo[n + i] = -(double)rows[i].c;
        for (auto &p : rows[i].t) a[(size_t)i * n + p.first] = (double)p.second;
    }
    const double eps = 1e-7;
    for (int turn = 0; turn < 600; turn++) {
        int r = -1;
        for (int i = 0; i < m; i++) {
            int b = basic[i];
            if (b >= n && val[b] < lo[b] - eps && (r < 0 || b < basic[r])) r = i;
        }
        if (r < 0) {
            for (int s = 0; s < n; s++) {
                double v = val[s] < 0 ? -(double)(int64_t)(-val[s] + 0.5) : (double)(int64_t)(val[s] + 0.5);
                if (v > 4e18 || v < -4e18) return 0;
                model[s] = (int64_t)v;
            }
            for (auto &x : rows) {
                big t = x.c;
                for (auto &p : x.t) t += (big)p.second * model[p.first];
                if (t < 0) {
                    double far = 0.01;
                    for (int s = 0; s < n; s++) {
                        double f = val[s] - (double)model[s];
                        if (f < 0) f = -f;
                        if (f > far) { far = f; *frac = s; *at = val[s]; }
                    }
                    return 0;
                }
            }
            return 2;
        }
        double *ar = &a[(size_t)r * n];
        int c = -1;
        for (int j = 0; j < n; j++) {
            double k = ar[j];
            if (k < eps && k > -eps) continue;
            int x = non[j];
            bool can = k > 0 || x < n || val[x] > lo[x] + eps;
            if (can && (c < 0 || x < non[c])) c = j;
        }
        if (c < 0) {
            // the row and the slacks it consists of add up to a contradiction
            for (int scale = 1; scale <= 12; scale++) {
                std::vector<big> sum(n, 0);
                big k = 0;
                bool ok = true;
                auto take = [&](int id, double f) {
                    double g = f * scale;
                    int64_t q = (int64_t)(g + (g < 0 ? -0.5 : 0.5));
                    if (g - q > 1e-5 || q - g > 1e-5 || q < 0 || q > 1000000) { ok = false; return; }
                    auto &row = rows[id - n];
                    for (auto &p : row.t) sum[p.first] += (big)p.second * q;
                    k += row.c * q;
                };
                take(basic[r], 1.0);
                for (int j = 0; j < n && ok; j++) {
                    double f = ar[j];
                    if (f < eps && f > -eps) continue;
                    if (non[j] < n) { ok = false; break; }
                    take(non[j], -f);
                }
                if (!ok) continue;
                for (int s = 0; s < n; s++) if (sum[s] != 0) ok = false;
                if (ok && k < 0) return 1;
            }
            return 0;
        }
        int b = basic[r], x = non[c];
        double k = ar[c], d = (lo[b] - val[b]) / k;
        val[b] = lo[b];
        val[x] += d;
        for (int i = 0; i < m; i++) if (i != r && basic[i] != x) val[basic[i]] += a[(size_t)i * n + c] * d;
        // pivot
        double inv = 1.0 / k;
        for (int j = 0; j < n; j++) if (j != c) ar[j] = -ar[j] * inv;
        ar[c] = inv;
        for (int i = 0; i < m; i++) {
            if (i == r) continue;
            double *ai = &a[(size_t)i * n];
            double f = ai[c];
            if (f == 0.0) continue;
            for (int j = 0; j < n; j++) {
                if (j == c) ai[j] = f * inv;
                else {
                    ai[j] += f * ar[j];
                    if (ai[j] < 1e-11 && ai[j] > -1e-11) ai[j] = 0.0;
                }
            }
        }
        basic[r] = x;
        non[c] = b;
    }
    return 0;
}

// The same, splitting on symbols whose value came out fractional.
static int branching(std::vector<Row> &rows, int n, int64_t *model, int depth, int *left) {
    int frac;
    double at;
    if (--*left < 0) return 0;
    int r = simplex(rows, n, model, &frac, &at);
    if (r || frac < 0 || depth == 0) return r;
    int64_t f = (int64_t)at;
    if ((double)f > at) f -= 1;
    bool all = true;
    for (int side = 0; side < 2; side++) {
        Row x;
        memset(x.h, 0, sizeof x.h);
        x.t.push_back({frac, side ? 1 : -1});
        x.c = side ? -((big)f + 1) : (big)f;
        rows.push_back(x);
        r = branching(rows, n, model, depth - 1, left);
        rows.pop_back();
        if (r == 2) return 2;
        if (r != 1) all = false;
    }
    return all ? 1 : 0;
}

extern "C" int fm(int ncons, const int *lens, const int *syms, const int64_t *coefs, const int64_t *chi, const uint64_t *clo,
                  int nsyms, int limit, int64_t *model, int *has) {
    *has = 0;
    Table T;
    const int *sp = syms;
    const int64_t *cp = coefs;
    for (int i = 0; i < ncons; i++) {
        Row r;
        for (int k = 0; k < lens[i]; k++) r.t.push_back({sp[k], cp[k]});
        sp += lens[i];
        cp += lens[i];
        std::sort(r.t.begin(), r.t.end());
        r.c = ((big)chi[i] << 64) | (big)clo[i];
        memset(r.h, 0, sizeof r.h);
        r.h[(i >> 6) & 3] |= 1ull << (i & 63);
        T.add(std::move(r));
        if (T.unsat) return 1;
    }
    std::vector<Row> first = T.rows;
    {
        // a negative limit asks for a thorough search
        int left = limit < 0 ? 3000 : 60;
        std::vector<Row> rows = first;
        int r = branching(rows, nsyms, model, limit < 0 ? 60 : 10, &left);
        if (r == 1) return 1;
        if (r == 2) { *has = 1; return 0; }
        if (limit < 0) limit = -limit;
    }
    std::vector<std::pair<int, std::vector<Row>>> gone;    // (symbol, rows with it)
    bool history = ncons <= 256;
    std::vector<int> pos(nsyms), neg(nsyms);
    std::vector<char> wide(nsyms);
    int round = 0;
    while (true) {
        std::fill(pos.begin(), pos.end(), 0);
        std::fill(neg.begin(), neg.end(), 0);
        std::fill(wide.begin(), wide.end(), 0);
        for (auto &r : T.rows)
            for (auto &p : r.t) {
                (p.second > 0 ? pos : neg)[p.first]++;
                if (p.second > 1 || p.second < -1) wide[p.first] = 1;
            }
        int best = -1;
        long bc = 0;
        for (int s = 0; s < nsyms; s++) {
            if (!pos[s] && !neg[s]) continue;
            long c = (long)pos[s] * neg[s] - pos[s] - neg[s] + (wide[s] ? 1000 : 0);
            if (!pos[s] || !neg[s]) c = -1000000;
            if (best < 0 || c < bc) { best = s; bc = c; }
        }
        if (best < 0) break;
        if (pos[best] && neg[best]) round++;
        Table N;
        std::vector<Row> with, ps, ns;
        for (auto &r : T.rows) {
            int64_t a = 0;
            for (auto &p : r.t) if (p.first == best) { a = p.second; break; }
            if (!a) { N.add(std::move(r)); continue; }
            (a > 0 ? ps : ns).push_back(r);
            with.push_back(std::move(r));
        }
        for (auto &p : ps) {
            int64_t ap = 0;
            for (auto &x : p.t) if (x.first == best) ap = x.second;
            for (auto &q : ns) {
                int64_t an = 0;
                for (auto &x : q.t) if (x.first == best) an = -x.second;
                Row r;
                bool skip = false;
                for (int k = 0; k < 4; k++) r.h[k] = p.h[k] | q.h[k];
                if (history) {
                    int n = 0;
                    for (int k = 0; k < 4; k++) n += __builtin_popcountll(r.h[k]);
                    if (n > round + 1 && T.rows.size() > 60) skip = true;
                }
                if (skip) continue;
                int64_t g = gcd64(ap, an), kp = an / g, kn = ap / g;
                size_t i = 0, j = 0;
                r.t.reserve(p.t.size() + q.t.size());
                while (i < p.t.size() || j < q.t.size()) {
                    if (j >= q.t.size() || (i < p.t.size() && p.t[i].first < q.t[j].first)) {
                        r.t.push_back({p.t[i].first, p.t[i].second * kp});
                        i++;
                    } else if (i >= p.t.size() || q.t[j].first < p.t[i].first) {
                        r.t.push_back({q.t[j].first, q.t[j].second * kn});
                        j++;
                    } else {
                        int64_t v = p.t[i].second * kp + q.t[j].second * kn;
                        if (v) r.t.push_back({p.t[i].first, v});
                        i++;
                        j++;
                    }
                }
                r.c = p.c * kp + q.c * kn;
                N.add(std::move(r));
                if (N.unsat) return 1;
            }
        }
        if (N.unsat) return 1;
        gone.push_back({best, std::move(with)});
        T = std::move(N);
        if ((int)T.rows.size() > limit) { *has = -2; return 0; }
    }
    // a point: several attempts, the choices within each symbol's bounds differing
    std::vector<big> val(nsyms, 0);
    uint64_t seed = 88172645463325252ull;
    for (int attempt = 0; attempt < 24; attempt++) {
        std::fill(val.begin(), val.end(), 0);
        bool ok = true;
        for (auto it = gone.rbegin(); it != gone.rend() && ok; ++it) {
            int s = it->first;
            bool hl = false, hu = false;
            big lo = 0, hi = 0;
            for (auto &r : it->second) {
                big rest = r.c;
                int64_t a = 0;
                for (auto &p : r.t) {
                    if (p.first == s) a = p.second;
                    else rest += (big)p.second * val[p.first];
                }
                if (a > 0) {            // a*s + rest >= 0: s >= ceil(-rest / a)
                    big b = -fdiv(rest, a);
                    if (!hl || b > lo) { lo = b; hl = true; }
                } else {                // s <= floor(rest / -a)
                    big b = fdiv(rest, -a);
                    if (!hu || b < hi) { hi = b; hu = true; }
                }
            }
            if (hl && hu && lo > hi) { ok = false; break; }
            int how = attempt;
            if (attempt >= 4) {
                seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
                how = (int)(seed % 5);
            }
            big v;
            if (hl && hu) {
                if (how == 0) v = (hi - lo > 1000) ? lo + 3 : lo + (hi - lo) / 2;
                else if (how == 1) v = lo;
                else if (how == 2) v = hi;
                else if (how == 3) v = lo + 1 <= hi ? lo + 1 : lo;
                else v = hi - 1 >= lo ? hi - 1 : hi;
            } else if (hl) v = lo + (how == 0 ? 3 : how == 1 ? 0 : how == 2 ? 16 : how == 3 ? 1 : 7);
            else if (hu) v = hi - (how == 0 ? 3 : how == 1 ? 0 : how == 2 ? 16 : how == 3 ? 1 : 7);
            else v = how;
            val[s] = v;
        }
        if (!ok) continue;
        for (auto &r : first) {
            big x = r.c;
            for (auto &p : r.t) x += (big)p.second * val[p.first];
            if (x < 0) { ok = false; break; }
        }
        for (int s = 0; s < nsyms && ok; s++) if (val[s] > ((big)1 << 62) || val[s] < -((big)1 << 62)) ok = false;
        if (!ok) continue;
        for (int s = 0; s < nsyms; s++) model[s] = (int64_t)val[s];
        *has = 1;
        return 0;
    }
    *has = -1;
    return 0;
}

// The same for a flat list of records (length, high and low word of the constant, pairs of symbol and
// coefficient). With `comp`, only what the last record is connected to. The point found comes back as
// pairs of symbol and value; returns its length in `npt`.
extern "C" int fm2(const int64_t *w, int64_t nw, int comp, int limit, int64_t *pt, int *npt, int *has) {
    struct Rec { int len; int64_t hi; uint64_t lo; const int64_t *p; };
    std::vector<Rec> recs;
    for (int64_t i = 0; i < nw;) {
        Rec r{(int)w[i], w[i + 1], (uint64_t)w[i + 2], w + i + 3};
        recs.push_back(r);
        i += 3 + 2 * r.len;
    }
    *npt = 0;
    static std::vector<int> ix, head, seen;      // by symbol; reset below
    int64_t top = 0;
    for (auto &r : recs) for (int k = 0; k < r.len; k++) top = std::max(top, r.p[2 * k]);
    if ((int64_t)ix.size() <= top) { ix.resize(top + 1024, -1); head.resize(top + 1024, -1); seen.resize(top + 1024, 0); }
    std::vector<int> order;
    std::vector<int64_t> names;
    auto number = [&](int64_t s) {
        if (ix[s] < 0) { ix[s] = (int)names.size(); names.push_back(s); }
        return ix[s];
    };
    if (comp) {
        std::vector<int> next, who;
        std::vector<int64_t> todo, touched;
        for (int i = 0; i < (int)recs.size(); i++)
            for (int k = 0; k < recs[i].len; k++) {
                int64_t s = recs[i].p[2 * k];
                if (head[s] < 0) touched.push_back(s);
                who.push_back(i);
                next.push_back(head[s]);
                head[s] = (int)who.size() - 1;
            }
        std::vector<char> in(recs.size(), 0);
        const Rec &q = recs.back();
        for (int k = 0; k < q.len; k++) { todo.push_back(q.p[2 * k]); seen[q.p[2 * k]] = 1; }
        while (!todo.empty()) {
            int64_t s = todo.back();
            todo.pop_back();
            for (int e = head[s]; e >= 0; e = next[e]) {
                int i = who[e];
                if (in[i]) continue;
                in[i] = 1;
                for (int k = 0; k < recs[i].len; k++) {
                    int64_t x = recs[i].p[2 * k];
                    if (!seen[x]) { seen[x] = 1; todo.push_back(x); }
                }
            }
        }
        for (int i = 0; i < (int)recs.size(); i++) if (in[i]) order.push_back(i);
        for (int64_t s : touched) { head[s] = -1; seen[s] = 0; }
    } else
        for (int i = 0; i < (int)recs.size(); i++) order.push_back(i);
    std::vector<int> lens, syms;
    std::vector<int64_t> coefs, chi;
    std::vector<uint64_t> clo;
    for (int i : order) {
        lens.push_back(recs[i].len);
        for (int k = 0; k < recs[i].len; k++) {
            syms.push_back(number(recs[i].p[2 * k]));
            coefs.push_back(recs[i].p[2 * k + 1]);
        }
        chi.push_back(recs[i].hi);
        clo.push_back(recs[i].lo);
    }
    std::vector<int64_t> model(names.size() + 1, 0);
    for (int64_t s : names) ix[s] = -1;
    int r = fm((int)lens.size(), lens.data(), syms.data(), coefs.data(), chi.data(), clo.data(), (int)names.size(), limit, model.data(), has);
    if (!r && *has == 1) {
        for (size_t k = 0; k < names.size(); k++) { pt[2 * k] = names[k]; pt[2 * k + 1] = model[k]; }
        *npt = (int)names.size();
    }
    return r;
}
