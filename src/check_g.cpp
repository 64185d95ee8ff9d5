// Property G01: the game (swar.c), its DOS build run on the 8086 model with a CGA page, a keyboard and
// a clock, against a model of the rules over the same page.
#include "ctools.h"
#include <cmath>

namespace {
enum { W = 320, H = 200, PAGE = 0xB8000, PAGEN = 16384, FONT = 0xFFA6E, CLOCK = 0x46C };
enum { LEFT = 0x4B00, RIGHT = 0x4D00, UP = 0x4800, DOWN = 0x5000, PGUP = 0x4900, PGDN = 0x5100 };

int16_t w16(int v) { return (int16_t)(uint16_t)v; }

struct Screen {
    uint8_t v[PAGEN];
    static int at(int x, int y) { return (y / 2) * 80 + (y % 2) * 8192 + x / 4; }
    int get(int x, int y) const { return v[at(x, y)] >> (6 - 2 * (x % 4)) & 3; }
    void put(int x, int y, int c) {
        if (x < 0 || x >= W || y < 0 || y >= H) return;
        int sh = 6 - 2 * (x % 4);
        uint8_t& b = v[at(x, y)];
        b = (b & ~(3 << sh)) | c << sh;
    }
    uint64_t hash() const { return hash64(v, PAGEN); }
};

// 256 times the cosine of a/128 of a half turn, the fraction cut off
int cosine(int a) {
    a &= 255;
    int k = a & 63, q = a >> 6;
    int m = q & 1 ? 64 - k : k;
    int r = (int)std::floor(256 * std::cos(m * M_PI / 128) + 1e-9);
    return q == 1 || q == 2 ? -r : r;
}
int sine(int a) { return cosine(a - 64); }

struct Tank { int x, y, ang, pow, col; };
struct Game {
    Screen s;
    const uint8_t* font = nullptr;
    Tank t[2];
    int cur = 0;
    bool won = false, ended = false;
    int hit = 0;
    std::vector<uint64_t> frames;      // what is on the screen each time the game waits for the retrace
    void turret(const Tank& k, int ang, int c) {
        int x = (k.x + 4) * 128, y = (k.y + 6) * 128;
        for (int i = 0; i < 6; ++i) { s.put(x >> 7, y >> 7, c); x += cosine(ang) >> 1; y += -sine(ang) >> 1; }
    }
    void body(const Tank& k) { for (int y = 0; y < 4; ++y) for (int x = 0; x < 9; ++x) s.put(k.x + x, k.y + 7 + y, k.col); }
    void text(int x, int y, const Str& str, int fg) {
        for (unsigned char ch : str) {
            for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) s.put(x + j, y + i, font[ch * 8 + i] >> (7 - j) & 1 ? fg : 0);
            x += 8;
        }
    }
    void info() { const Tank& k = t[cur]; text(0, 0, fmt("Ang %3d  Pwr %3d", k.ang * 180 / 128, k.pow), k.col); }
    int fire(const Tank& k, bool quiet) {
        int ca = cosine(k.ang) >> 1, sa = -sine(k.ang) >> 1;
        int16_t tx = w16((k.x + 4) * 128 + ca * 6), ty = w16((k.y + 6) * 128 + sa * 6);
        int16_t vx = w16(ca * k.pow / 100), vy = w16(sa * k.pow / 100), g = 0;
        int lx = -1, ly = 0;
        for (int n = 0; n < 20000; ++n) {
            int x = tx >> 7 & 0x1ff, y = ty >> 7;
            if (x >= W || y >= H) break;
            if (!quiet) frames.push_back(s.hash());
            if (lx >= 0 && ly >= 0) s.put(lx, ly, 0);
            if (y >= 0) {
                if (y > 8) {
                    int h = s.get(x, y);
                    if (h) { s.put(x, y, 0); return h; }
                }
                s.put(x, y, 1);
            }
            lx = x; ly = y;
            tx = w16(tx + vx); ty = w16(ty + vy); vy = w16(vy + (g >> 10)); g = w16(g + 5);
        }
        if (lx >= 0 && ly >= 0) s.put(lx, ly, 0);
        return 0;
    }
    void key(int ch) {
        if (won) { ended = true; return; }
        Tank& k = t[cur];
        int lo = ch & 0xff;
        if (lo == 27) { ended = true; return; }
        if (lo == 32 || lo == 13) {
            hit = fire(k, false);
            if (hit >= 2) { Str m = fmt("Player %d wins!", 4 - hit); text((W - 8 * (int)m.size()) / 2, H / 2 - 4, m, hit ^ 1); won = true; return; }
            cur = !cur;
            info();
            return;
        }
        int ang = k.ang;
        switch (ch) {
        case LEFT: ang = ang == 128 ? 0 : ang + 1; break;
        case RIGHT: ang = ang == 0 ? 128 : ang - 1; break;
        case UP: k.pow = std::min(100, k.pow + 1); break;
        case DOWN: k.pow = std::max(0, k.pow - 1); break;
        case PGUP: k.pow = 100; break;
        case PGDN: k.pow = 0; break;
        default: return;
        }
        if (ang != k.ang) { turret(k, k.ang, 0); k.ang = ang; turret(k, ang, k.col); }
        info();
    }
    // The first picture: any terrain that follows the rules, with the two tanks and the status line on it.
    Str adopt(const uint8_t* page) {
        memcpy(s.v, page, PAGEN);
        Screen now = s;
        t[0] = {20, 0, 32, 100, 2}; t[1] = {300, 0, 96, 100, 3};
        for (auto& k : t) {
            int y = H - 1;
            while (y >= 0 && s.get(k.x + 4, y) == 1) --y;
            if (y < 0 || s.get(k.x + 4, y) != k.col) return fmt("no tank of colour %d stands on the terrain at column %d", k.col, k.x + 4);
            k.y = y - 10;
        }
        // what the picture must be
        Game e; e.font = font; e.t[0] = t[0]; e.t[1] = t[1];
        memset(e.s.v, 0, PAGEN);
        for (auto& k : e.t) { e.body(k); e.turret(k, k.ang, k.col); }
        e.info();
        Screen things = e.s;
        int last = -1;
        for (int x = 0; x < W; ++x) {
            int g = 20;
            while (g < H && now.get(x, g) != 1) ++g;
            bool covered = g > 20 && things.get(x, g - 1) >= 2;
            // (a column may be higher than it looks, behind a tank)
            if (g > 180 && !covered) return fmt("the terrain of column %d is too low (row %d)", x, g);
            if (!covered) { if (last >= 0 && std::abs(g - last) > 3) return fmt("the terrain jumps by %d rows at column %d", g - last, x); last = g; }
            else last = -1;
            for (int y = 0; y < H; ++y) {
                int want = things.get(x, y);
                if (!want && y >= g) want = 1;
                if (now.get(x, y) != want) return fmt("first picture: column %d, row %d has colour %d, not %d (terrain from row %d)", x, y, now.get(x, y), want, g);
            }
        }
        for (auto& k : t) { int g = k.y + 11; if (g < 20 || g > 180) return "a tank is too high or too low"; }
        return "";
    }
};
const char* keyName(int k) {
    switch (k) { case LEFT: return "left"; case RIGHT: return "right"; case UP: return "up"; case DOWN: return "down"; case PGUP: return "pgup"; case PGDN: return "pgdn"; }
    return (k & 255) == 27 ? "esc" : (k & 255) == 32 || (k & 255) == 13 ? "fire" : "other";
}
Str keyLog(const std::vector<int>& ks) {
    Str r;
    for (size_t i = 0; i < ks.size();) {
        size_t j = i;
        while (j < ks.size() && ks[j] == ks[i]) ++j;
        r += fmt(" %s(%04X)", keyName(ks[i]), ks[i]) + (j - i > 1 ? fmt("*%d", (int)(j - i)) : "");
        i = j;
    }
    return r;
}
uint64_t hashOutside(const Ref86& m) { return hash64(&m.mem[0], m.baseSeg * 16, hash64(&m.mem[m.baseSeg * 16 + 0x10000], PAGE - (m.baseSeg * 16 + 0x10000), hash64(&m.mem[PAGE + PAGEN], m.mem.size() - PAGE - PAGEN))); }

struct Run {
    Src& s; Ctx& c;
    Ref86& m;
    Game g;
    int clock, maxKeys, ocMode, mode, palette = -1;
    std::vector<int> keys;             // fetched
    std::vector<int> plan;             // to come, last first
    size_t frame = 0, shots = 0, angKeys = 0, powKeys = 0;
    int polls = 0;
    bool started = false;
    Run(Src& s, Ctx& c, Ref86& m) : s(s), c(c), m(m) {}
    [[noreturn]] void fail(const Str& w) { c.note("history", fmt("clock %d, video mode %d at the start\nkeys:", clock, ocMode) + keyLog(keys) + "\n"); throw Failure{w + fmt("\nafter the keys:") + keyLog(keys) + fmt("  (clock %d)", clock)}; }
    void start() {
        started = true;
        if (mode != 4) fail(fmt("the game waits for a key in video mode %d, not 4", mode));
        if (palette != 0) fail("the palette of the game is not set");
        Str e = g.adopt(&m.mem[PAGE]);
        if (!e.empty()) fail(e);
    }
    void compare() {
        if (!started) { start(); return; }
        if (!memcmp(g.s.v, &m.mem[PAGE], PAGEN)) return;
        Screen now; memcpy(now.v, &m.mem[PAGE], PAGEN);
        for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x)
            if (now.get(x, y) != g.s.get(x, y)) fail(fmt("the pixel in column %d, row %d has colour %d, not %d", x, y, now.get(x, y), g.s.get(x, y)));
        fail("bytes of the video page that are not shown have changed");
    }
    void makePlan() {
        std::vector<int> p;
        static const int all[] = {LEFT, RIGHT, UP, DOWN};
        auto fireKey = [&] { return (int)(s.coin() ? 0x3920 : s.coin() ? 0x1C0D : s.below(256) << 8 | (s.coin() ? 32 : 13)); };
        auto times = [&](int k, int n) { while (n-- > 0) p.push_back(k); };
        switch (s.weighted({25, 8, 14, 10, 20, 6, 5})) {
        case 0: times(all[s.below(4)], 1 + s.below(12)); break;
        case 1: p.push_back(s.coin() ? PGUP : PGDN); break;
        case 2: p.push_back(fireKey()); break;
        case 3: { // keys without a meaning
            static const int near[] = {0x4BE0, 0x4DE0, 0x48E0, 0x50E0, 0x4700, 0x4F00, 0x5200, 0x4A00, 0x4C00, 0x4E00, 0x011A, 0x0000, 0x1C0A, 0x4B01};
            int k = s.coin() ? near[s.below(14)] : (int)s.below(65536);
            if ((k & 255) == 27) k ^= 64;
            p.push_back(k); break; }
        case 4: { // aim at a tank, if one can be hit from here
            const Tank& k = g.t[g.cur];
            Game t = g;
            int want = s.chance(80) ? t.t[!g.cur].col : k.col;
            bool full = s.chance(40);
            for (int i = 0; i < 60; ++i) {
                int a = s.chance(85) ? std::min(128, std::max(0, k.ang + s.range(-30, 30))) : (int)s.below(129), pw = full ? 100 : s.below(101);
                Tank n = k; n.ang = a; n.pow = pw;
                t.s = g.s;
                t.turret(k, k.ang, 0); t.turret(n, a, n.col);
                if (t.fire(n, true) != want && i < 59) continue;
                times(a > k.ang ? LEFT : RIGHT, std::abs(a - k.ang));
                if (pw == 100 && k.pow != 100) p.push_back(PGUP);
                else if (pw < k.pow - pw) { p.push_back(PGDN); times(UP, pw); }
                else times(pw > k.pow ? UP : DOWN, std::abs(pw - k.pow));
                p.push_back(fireKey());
                break;
            }
            break; }
        case 5: { const Tank& k = g.t[g.cur]; int d = s.coin() ? 128 - k.ang : -k.ang; times(d > 0 ? LEFT : RIGHT, std::abs(d) + s.below(4)); if (s.coin()) times(d > 0 ? RIGHT : LEFT, s.below(4)); break; }
        default: p.push_back(s.coin() ? PGUP : PGDN); times(p[0] == PGUP ? s.coin() ? UP : DOWN : s.coin() ? DOWN : UP, 1 + s.below(3)); break;
        }
        plan.assign(p.rbegin(), p.rend());
    }
    int next() {
        if (g.won) return (int)s.below(65536);
        if ((int)keys.size() >= maxKeys) return s.below(256) << 8 | 27;
        while (plan.empty()) makePlan();
        int k = plan.back(); plan.pop_back();
        return k;
    }
    bool interrupt(Ref86& m, int n) {
        using R = Ref86;
        if (n == 0x10) {
            int ah = m.r[R::AX] >> 8, al = m.r[R::AX] & 255;
            if (ah == 0) { mode = al & 127; if (!(al & 128)) memset(&m.mem[PAGE], 0, PAGEN); palette = -1; return true; }
            if (ah == 0x0B) { if (m.r[R::BX] >> 8 == 1) palette = m.r[R::BX] & 1; return true; }
            if (ah == 0x0F) { m.r[R::AX] = 80 << 8 | mode; m.r[R::BX] = (uint16_t)(m.r[R::BX] & 255); return true; }
            fail(fmt("INT 10h with AX=%04X", m.r[R::AX]));
        }
        if (n == 0x16) {
            int ah = m.r[R::AX] >> 8;
            if (ah == 1) {
                if (++polls > 200000) fail("the game keeps asking for a key without taking it");
                bool have = !s.chance(30);
                m.fl = have ? m.fl & ~R::ZF : m.fl | R::ZF;
                if (have) m.r[R::AX] = 0x1234; // (which key is only known when it is taken)
                return true;
            }
            if (ah == 0) {
                polls = 0;
                if (frame != g.frames.size()) fail(fmt("the shot was shown in %d steps, not %d", (int)frame, (int)g.frames.size()));
                if (g.ended) fail("the game goes on after it has ended");
                compare();
                int k = next();
                keys.push_back(k);
                g.frames.clear(); frame = 0;
                int before = g.cur; bool wasWon = g.won;
                int oa = g.t[g.cur].ang, op = g.t[g.cur].pow;
                g.key(k);
                if (g.cur == before) { angKeys += g.t[g.cur].ang != oa; powKeys += g.t[g.cur].pow != op; if (std::abs(g.t[g.cur].ang - oa) > 1) c.label("angle wraps"); }
                if (!g.frames.empty()) { ++shots; c.label(g.won ? (g.hit == g.t[before].col ? "hits own tank" : "hits the other tank") : g.hit ? "hits terrain" : "leaves the screen"); }
                else if (g.won && !wasWon) { ++shots; }
                c.label(Str("key:") + keyName(k));
                m.r[R::AX] = k;
                return true;
            }
            fail(fmt("INT 16h with AX=%04X", m.r[R::AX]));
        }
        return false;
    }
    bool port(Ref86& m, uint16_t p, bool write, uint16_t& v) {
        if (p != 0x3DA || write) return false;
        bool retrace = s.chance(60);
        v = s.below(256) & ~8;
        if (retrace) {
            v |= 8;
            if (frame >= g.frames.size()) fail("the game waits for the retrace when no shot is under way");
            if (hash64(&m.mem[PAGE], PAGEN) != g.frames[frame]) fail(fmt("step %d of the shot is not shown as it should be", (int)frame));
            ++frame;
        }
        return true;
    }
};

static Reg g1({"G01", "The DOS build of the game is run on the 8086 model with a video page, a keyboard, a clock and a retrace bit under random key histories (barrel and power keys, aimed and random shots, meaningless keys) from random clock values; the video page is compared with a model of the rules whenever a key is taken and at every step of a shot, and memory outside the page and the program's segment must not change. Non-trivial: at least one shot and five keys.",
    2000, 40000, [](Src& s, Ctx& c) {
        static Ref86* m = nullptr;
        if (!m) m = new Ref86();
        m->files.clear();
        m->load(selfHosted("swar"), "", 1 + s.below(1000000));
        Run r(s, c, *m);
        // (a shift register has fixed points; with an arithmetic shift, also among the negative numbers)
        static const int fixed[] = {-3457, -6914, -13828, 0, -1, -2, 32767, -32768};
        r.clock = s.chance(5) ? fixed[s.below(8)] & 0xffff : s.chance(20) ? s.below(16) * (s.coin() ? 1 : 4096) : s.below(65536);
        m->mem[CLOCK] = r.clock & 255; m->mem[CLOCK + 1] = r.clock >> 8;
        static const int modes[] = {3, 0, 1, 2, 7, 6};
        r.ocMode = r.mode = modes[s.below(6)];
        r.maxKeys = s.chance(10) ? s.below(4) : s.below(c.thorough ? 400 : 160);
        r.g.font = &m->mem[FONT];
        m->intHook = [&](Ref86& x, int n) { return r.interrupt(x, n); };
        m->portHook = [&](Ref86& x, uint16_t p, bool w, uint16_t& v) { return r.port(x, p, w, v); };
        m->budget = 60000000 + (uint64_t)r.maxKeys * 6000000;
        if (m->budget > 600000000) m->budget = 600000000;
        uint64_t out = hashOutside(*m);
        Ref86::Stop st = m->run();
        m->intHook = nullptr; m->portHook = nullptr;
        if (st != Ref86::EXITED) r.fail((st == Ref86::BUDGET ? Str(r.started ? "the game hangs" : "the game does not start") : "the game stops: " + m->why) + "\n" + m->stateStr());
        if (!r.started) r.fail("the game ends before it takes a key");
        if (!r.g.ended) r.fail("the game ends too early");
        if (r.mode != r.ocMode) r.fail(fmt("video mode %d is not restored (it is %d)", r.ocMode, r.mode));
        if (hashOutside(*m) != out) r.fail("memory outside the program and the video page has changed");
        if (!m->files.empty()) r.fail("the game has created files");
        if (r.shots && r.keys.size() >= 5) c.nontrivial(hashStr(keyLog(r.keys), r.clock));
        c.label("shots", r.shots); c.label("angle changes", r.angKeys); c.label("power changes", r.powKeys); c.label("keys", r.keys.size());
        if (r.g.won) c.label("games won");
        c.sample(fmt("clock %d:", r.clock) + keyLog(r.keys));
    }, {"the DOS build made by the host-built preprocessor and compiler is run on an independent 8086 model (src/ref86.cpp)", "which terrain a clock value gives is not judged, only its form"}, nullptr});
} // namespace

int main(int argc, char** argv) {
    g_needTools = {"scpp", "scc"};
    return pbtMain(argc, argv);
}
