// Particle files: what the saver writes for arbitrary states (P17), what the loaders make of arbitrary files (P18),
// and saving followed by loading (P19). Files are read and written here by independent code.
#include "harness.hpp"
#include "loader.hpp"
#include "mps.hpp"
#include "mps_factory.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"
#include "saver.hpp"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <unistd.h>
namespace fs = std::filesystem;
using std::string;
using std::vector;

struct Rec { int type = 0, ftype = 0, bc = 0; double x[3] = {}, v[3] = {}, rho = 0, p = 0, nd = 0; };

static string slurp(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    return string((std::istreambuf_iterator<char>(f)), {});
}
static bool toDouble(const string& s, double& d) {
    if (s.empty() || isspace((unsigned char) s[0])) return false;
    char* e;
    d = strtod(s.c_str(), &e);
    return *e == 0;
}
static bool toInt(const string& s, int& i) {
    if (s.empty() || isspace((unsigned char) s[0])) return false;
    char* e;
    long v = strtol(s.c_str(), &e, 10);
    i = (int) v;
    return *e == 0 && v == i;
}
static vector<string> split(const string& s, char c) {
    vector<string> r;
    size_t a = 0;
    for (;;) {
        size_t b = s.find(c, a);
        r.push_back(s.substr(a, b == string::npos ? string::npos : b - a));
        if (b == string::npos) return r;
        a = b + 1;
    }
}
static vector<string> words(const string& s) {
    std::istringstream is(s);
    vector<string> r;
    for (string w; is >> w;) r.push_back(w);
    return r;
}
// a printed number states v to six significant digits
static bool six(double printed, double v) {
    if (std::isnan(v)) return std::isnan(printed);
    if (std::isinf(v) || v == 0) return printed == v;
    if (!(std::signbit(printed) == std::signbit(v))) return false;
    double a = std::fabs(v);
    double u = std::pow(10.0, std::floor(std::log10(a)) - 5);
    if (a < 1e-300) return std::fabs(printed - v) <= std::max(0.6e-5 * a, 1e-323);
    return std::fabs(printed - v) <= 0.50001 * u * (1 + 1e-9) || std::fabs(printed - v) <= 0.5001e-5 * a * 0.1;
}
static double value(Rng& r, bool wild) {
    switch (r.i(0, wild ? 13 : 9)) {
    case 0: return 0.0;
    case 1: return r.u(-1, 1);
    case 2: return r.i(-1000, 1000) * 0.025;
    case 3: return r.i(-3, 3);
    case 4: return r.lu(1e-12, 1e12) * (r.p(0.5) ? 1 : -1);
    case 5: return r.pick({9.999995, 9.9999949, 0.9999995, 99999.95, 999999.5, 123456.5, 1234567.0, 0.1, 1e5, 1e6, 0.0001, 0.00001, 1.0 / 3});
    case 6: return r.gauss() * 1e-6;
    case 7: return r.u(-2, 3);
    case 8: return r.gauss() * 1e4;
    case 9: return -r.u(0, 1e-3);
    case 10: return r.lu(1e-290, 1e290) * (r.p(0.5) ? 1 : -1);
    case 11: return -0.0;
    case 12: return r.pick({5e-324, 2.2250738585072014e-308, 1.2345e-308, 1.7976931348623157e308, -1.5e300});
    default: return r.pick({(double) NAN, (double) INFINITY, -(double) INFINITY});
    }
}

// ---------------------------------------------------------------- VTU reader
struct Arr { string type, format; int comps = 0; vector<double> d; vector<string> lines; vector<char> raw; size_t off = 0, tuples = 0; };
struct Vtu { bool ok = false; string why; int points = -1, cells = -1; std::map<string, Arr> a; bool binary = false; };
static string attr(const string& tag, const string& name) {
    size_t p = tag.find(" " + name + "=");
    if (p == string::npos) return "";
    p += name.size() + 2;
    size_t e = tag.find(tag[p], p + 1);
    return e == string::npos ? "" : tag.substr(p + 1, e - p - 1);
}
static size_t typeSize(const string& t) {
    if (t == "Float64" || t == "Int64" || t == "UInt64") return 8;
    if (t == "Float32" || t == "Int32" || t == "UInt32") return 4;
    if (t == "Int8" || t == "UInt8") return 1;
    return 0;
}
static Vtu readVtu(const string& t) {
    Vtu v;
    auto bad = [&](const string& w) { v.why = w; return v; };
    vector<string> stack;
    size_t p = 0, appended = string::npos, end = string::npos;
    string header, order;
    if (t.compare(0, 5, "<?xml")) return bad("no XML declaration");
    p = t.find("?>");
    if (p == string::npos) return bad("XML declaration");
    p += 2;
    struct Open { string name; Arr arr; size_t text; };
    vector<Open> arrs;
    string cur;
    size_t textAt = 0;
    while (true) {
        size_t a = t.find('<', p);
        if (a == string::npos) break;
        size_t b = t.find('>', a);
        if (b == string::npos) return bad("unfinished tag");
        string tag = t.substr(a + 1, b - a - 1);
        p = b + 1;
        bool self = tag.back() == '/';
        if (self) tag.pop_back();
        string name = tag.substr(tag[0] == '/' ? 1 : 0, tag.find_first_of(" \n", 1) - (tag[0] == '/' ? 1 : 0));
        if (tag[0] == '/') {
            if (stack.empty() || stack.back() != name) return bad("</" + name + "> does not match");
            stack.pop_back();
            if (name == "DataArray" && !cur.empty()) {
                string body = t.substr(textAt, a - textAt);
                for (auto& l : split(body, '\n')) if (!l.empty()) v.a[cur].lines.push_back(l);
                cur.clear();
            }
            continue;
        }
        if (name == "VTKFile") {
            if (attr(tag, "type") != "UnstructuredGrid" || attr(tag, "byte_order") != "LittleEndian") return bad("VTKFile attributes: " + tag);
            header = attr(tag, "header_type");
        } else if (name == "Piece") {
            if (!toInt(attr(tag, "NumberOfPoints"), v.points) || !toInt(attr(tag, "NumberOfCells"), v.cells)) return bad("Piece attributes: " + tag);
        } else if (name == "DataArray") {
            Arr r;
            r.type = attr(tag, "type"); r.format = attr(tag, "format");
            string n = attr(tag, "Name"), parent = stack.empty() ? "" : stack.back();
            r.comps = 1;
            if (!attr(tag, "NumberOfComponents").empty() && !toInt(attr(tag, "NumberOfComponents"), r.comps)) return bad("components of " + n);
            int tuples;
            if (!attr(tag, "NumberOfTuples").empty()) { if (!toInt(attr(tag, "NumberOfTuples"), tuples) || tuples != 1) return bad("tuples of " + n); }
            if (!typeSize(r.type)) return bad("type of " + n);
            if (r.format == "appended") {
                int o;
                if (!toInt(attr(tag, "offset"), o) || o < 0) return bad("offset of " + n);
                r.off = o;
                v.binary = true;
            } else if (r.format != "ascii") return bad("format of " + n);
            string key = parent + "/" + n;
            if (v.a.count(key)) return bad("two arrays " + key);
            v.a[key] = r;
            if (!self) { cur = key; textAt = p; }
        } else if (name == "AppendedData") {
            if (attr(tag, "encoding") != "raw") return bad("encoding");
            appended = t.find('_', p);
            if (appended == string::npos) return bad("appended data");
            for (size_t k = p; k < appended; k++) if (!isspace((unsigned char) t[k])) return bad("text before the appended data");
            appended++;
            end = t.rfind("</AppendedData>");
            if (end == string::npos || end < appended) return bad("no </AppendedData>");
            p = end;
        }
        if (!self) stack.push_back(name);
    }
    if (!stack.empty()) return bad("<" + stack.back() + "> is not closed");
    if (v.points < 0) return bad("no Piece");
    if (v.binary && (appended == string::npos || header != "UInt64")) return bad("no appended data or header type " + header);
    vector<std::pair<size_t, size_t>> ext;
    for (auto& kv : v.a) {
        Arr& r = kv.second;
        if (r.format == "ascii") {
            for (auto& l : r.lines) for (auto& w : words(l)) { double d; if (!toDouble(w, d)) return bad("bad number '" + w + "' in " + kv.first); r.d.push_back(d); }
        } else {
            size_t at = appended + r.off, sz = typeSize(r.type);
            if (at + 8 > end) return bad("offset of " + kv.first + " is outside the data");
            uint64_t len;
            memcpy(&len, &t[at], 8);
            if (at + 8 + len > end || len % sz) return bad("length of " + kv.first + " does not fit the data");
            ext.push_back({r.off, r.off + 8 + len});
            r.raw.assign(t.begin() + at + 8, t.begin() + at + 8 + len);
            for (size_t k = 0; k < len; k += sz) {
                double d = 0;
                if (r.type == "Float64") memcpy(&d, &r.raw[k], 8);
                else if (r.type == "Int32") { int32_t i; memcpy(&i, &r.raw[k], 4); d = i; }
                else if (r.type == "Int64") { int64_t i; memcpy(&i, &r.raw[k], 8); d = (double) i; }
                else if (r.type == "UInt8") d = (unsigned char) r.raw[k];
                else return bad("type of " + kv.first);
                r.d.push_back(d);
            }
        }
        if (r.d.size() % r.comps) return bad("number of values of " + kv.first);
        r.tuples = r.d.size() / r.comps;
    }
    if (v.binary) {
        std::sort(ext.begin(), ext.end());
        size_t at = 0;
        for (auto& e : ext) { if (e.first != at) return bad("arrays overlap or leave a gap in the appended data"); at = e.second; }
        for (size_t k = appended + at; k < end; k++) if (!isspace((unsigned char) t[k])) return bad("data after the last array");
    }
    v.ok = true;
    return v;
}

// ---------------------------------------------------------------- P17
static void fill(MPS& m, const vector<Rec>& rs) {
    m.particles = Particles();
    for (auto& q : rs) {
        Particle p(m.particles.size(), static_cast<ParticleType>(q.type), Eigen::Vector3d(q.x[0], q.x[1], q.x[2]), Eigen::Vector3d(q.v[0], q.v[1], q.v[2]), q.rho, q.ftype);
        p.pressure = q.p; p.numberDensity = q.nd; p.boundaryCondition = static_cast<FluidState>(q.bc);
        m.particles.add(p);
    }
}
static vector<Rec> randomState(Rng& r, int n, bool wild, bool ghosts) {
    vector<Rec> rs(n);
    bool tame = r.p(0.3);
    for (auto& q : rs) {
        q.type = r.p(0.6) ? 1 : r.i(ghosts ? 0 : 1, 3);
        q.ftype = r.p(0.5) ? 0 : r.p(0.9) ? r.i(-2, 12) : r.i(-2000000000, 2000000000);
        q.bc = r.i(0, 4);
        for (int k = 0; k < 3; k++) { q.x[k] = tame ? r.u(-1, 2) : value(r, wild); q.v[k] = tame ? r.gauss() : value(r, wild); }
        q.p = r.p(0.3) ? 0 : std::fabs(value(r, wild)); q.nd = std::fabs(value(r, wild)); q.rho = r.p(0.7) ? r.u(500, 2000) : std::pow(10.0, r.u(-6, 6));
    }
    return rs;
}
static string checkText(const string& what, const vector<string>& lines, const vector<Rec>& rs, double time, bool csv) {
    size_t h = csv ? 3 : 2;
    if (lines.size() != rs.size() + h + 1 || !lines.back().empty()) return fmt("%s has %zu lines for %zu particles", what.c_str(), lines.size() - 1, rs.size());
    double t;
    int n;
    if (!toDouble(lines[0], t) || !six(t, time)) return fmt("%s states time '%s', it is %.17g", what.c_str(), lines[0].c_str(), time);
    if (!toInt(lines[1], n) || n != (int) rs.size()) return fmt("%s declares '%s' particles, it lists %zu", what.c_str(), lines[1].c_str(), rs.size());
    vector<string> cols = csv ? split(lines[2], ',') : vector<string>{"type", "x", "y", "z", "vx", "vy", "vz"};
    for (auto need : {"type", "x", "y", "z", "vx", "vy", "vz", "fluidType"})
        if ((csv || strcmp(need, "fluidType")) && std::count(cols.begin(), cols.end(), need) != 1) return fmt("%s has no column %s", what.c_str(), need);
    for (size_t i = 0; i < rs.size(); i++) {
        const Rec& q = rs[i];
        auto f = csv ? split(lines[i + h], ',') : split(lines[i + h], ' ');
        if (f.size() != cols.size()) return fmt("%s: line '%s' of particle %zu has %zu columns", what.c_str(), lines[i + h].c_str(), i, f.size());
        for (size_t k = 0; k < cols.size(); k++) {
            const string& c = cols[k];
            double want = c == "type" ? q.type : c == "fluidType" ? q.ftype : c == "density" ? q.rho : c[0] == 'v' ? q.v[c[1] - 'x'] : q.x[c[0] - 'x'];
            double got;
            bool exact = c == "type" || c == "fluidType";
            if (!toDouble(f[k], got) || !(exact ? got == want : six(got, want))) return fmt("%s: %s of particle %zu is written '%s', it is %.17g", what.c_str(), c.c_str(), i, f[k].c_str(), want);
        }
    }
    return "";
}
static string checkVtu(const string& text, const vector<Rec>& rs, double time, double n0, bool binary) {
    Vtu v = readVtu(text);
    if (!v.ok) return "VTU file is malformed: " + v.why;
    if (v.binary != binary) return fmt("VTU file is %s", v.binary ? "binary" : "ASCII");
    size_t n = rs.size();
    if (v.points != (int) n || v.cells != (int) n) return fmt("VTU file declares %d points and %d cells for %zu particles", v.points, v.cells, n);
    struct W { const char* name; const char* type; int comps; };
    for (W w : {W{"Points/Position", "Float64", 3}, {"PointData/Particle Type", "Int32", 1}, {"PointData/Velocity", "Float64", 3}, {"PointData/Pressure", "Float64", 1}, {"PointData/Number Density", "Float64", 1},
                {"PointData/Number Density Ratio", "Float64", 1}, {"PointData/Boundary Condition", "Int32", 1}, {"PointData/Fluid Type", "Int32", 1}, {"Cells/connectivity", "Int64", 1}, {"Cells/offsets", "Int64", 1}, {"Cells/types", "UInt8", 1}, {"FieldData/Time", "Float64", 1}}) {
        auto it = v.a.find(w.name);
        if (it == v.a.end()) return fmt("VTU file lacks array %s", w.name);
        const Arr& a = it->second;
        if (a.type != w.type || a.comps != w.comps) return fmt("VTU array %s is %s x %d", w.name, a.type.c_str(), a.comps);
        bool isTime = !strcmp(w.name, "FieldData/Time");
        if (a.tuples != (isTime ? 1 : n)) return fmt("VTU array %s has %zu entries for %zu particles", w.name, a.tuples, n);
        for (size_t k = 0; k < a.d.size(); k++) {
            size_t i = k / w.comps, q = k % w.comps;
            string s = w.name;
            double want = isTime ? time : s == "Points/Position" ? rs[i].x[q] : s == "PointData/Velocity" ? rs[i].v[q] : s == "PointData/Particle Type" ? rs[i].type : s == "PointData/Pressure" ? rs[i].p
                        : s == "PointData/Number Density" ? rs[i].nd : s == "PointData/Number Density Ratio" ? rs[i].nd / n0 : s == "PointData/Boundary Condition" ? rs[i].bc : s == "PointData/Fluid Type" ? rs[i].ftype
                        : s == "Cells/connectivity" ? (double) i : s == "Cells/offsets" ? i + 1.0 : 1.0;
            bool integral = string(w.type) != "Float64", ratio = s == "PointData/Number Density Ratio";
            bool ok = integral ? a.d[k] == want : binary && ratio ? std::fabs(a.d[k] - want) <= 4e-16 * std::fabs(want) || (std::isnan(want) && std::isnan(a.d[k])) || a.d[k] == want
                    : binary ? !memcmp(&a.d[k], &want, 8) || (std::isnan(want) && std::isnan(a.d[k])) : six(a.d[k], want);
            if (!ok) return fmt("%s VTU array %s states %.17g for particle %zu, it is %.17g", binary ? "binary" : "ASCII", w.name, a.d[k], i, want);
        }
    }
    return "";
}
static string fileText(const fs::path& p, vector<string>& lines) {
    string t = slurp(p);
    lines = split(t, '\n');
    return t;
}
static void saved(Case& c) {
    Rng& r = c.rng;
    fs::path dir = fs::path(gWorkDir) / "s";
    fs::remove_all(dir);
    MPS m;
    bool binary = r.p(0.5);
    m.refValuesForNumberDensity.n0 = r.u(1, 60);
    const bool large = c.index % 401 == 9; // more particles than 16 bits can count
    if (large) binary = c.index / 401 % 2;
    int sets = large ? 1 : r.i(1, 4);
    {
        Saver sv(dir, binary);
        for (int k = 0; k < sets; k++) {
            int n = large ? r.i(66000, 70000) : r.p(0.08) ? 0 : r.p(0.1) ? 1 : r.p(0.02) ? r.i(200, 2000) : r.i(2, 50);
            if (large) count("sets of more than 65536 particles compared");
            bool wild = r.p(0.5);
            auto rs = randomState(r, n, wild, true);
            double time = r.p(0.3) ? k * 0.04 : value(r, wild);
            fill(m, rs);
            sv.save(m, time);
            c.mix(n); c.mix(time); for (auto& q : rs) { c.mix(q.x[0]); c.mix(q.v[1]); c.mix(q.p); }
            string num = fmt("output_%04d", k);
            vector<string> lp, lc;
            string vt = slurp(dir / "vtu" / (num + ".vtu"));
            if (!fs::exists(dir / "prof" / (num + ".prof")) || !fs::exists(dir / "csv" / (num + ".csv")) || vt.empty()) return c.fail("set %d is incomplete", k);
            fileText(dir / "prof" / (num + ".prof"), lp);
            fileText(dir / "csv" / (num + ".csv"), lc);
            string e = checkText("profile", lp, rs, time, false);
            if (e.empty()) e = checkText("CSV file", lc, rs, time, true);
            if (e.empty()) e = checkVtu(vt, rs, time, m.refValuesForNumberDensity.n0, binary);
            if (!e.empty()) return c.fail("set %d: %s", k, e.c_str());
            count(binary ? "sets compared, binary VTU" : "sets compared, ASCII VTU");
            count("particles compared", n);
            if (wild) count("sets with extreme or non-finite values");
            if (!n) count("empty sets");
            if (n) c.nontrivial = true;
            c.sample = fmt("%d particles, time %.9g, %s VTU%s", n, time, binary ? "binary" : "ASCII", wild ? ", extreme values" : "");
        }
    }
    size_t files = 0;
    for (auto& e : fs::recursive_directory_iterator(dir)) if (e.is_regular_file()) files++;
    if (files != 3u * sets) return c.fail("%zu files for %d sets", files, sets);
    fs::remove_all(dir);
}

// ---------------------------------------------------------------- P18
static string num(Rng& r, double v, bool istream) {
    char b[64];
    switch (r.i(0, istream ? 5 : 4)) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%g", v); break;
    case 2: snprintf(b, sizeof b, "%.9e", v); break;
    case 3: snprintf(b, sizeof b, "%.6f", v); break;
    case 4: snprintf(b, sizeof b, "%.3g", v); break;
    default: snprintf(b, sizeof b, "%+.10E", v); break;
    }
    return b;
}
static string compare(const Particles& ps, const vector<Rec>& rs, double start, double wantStart, double defaultDensity, const vector<char>& hasDensity, double rel) {
    if (ps.size() != (int) rs.size()) return fmt("%d particles loaded, the file lists %zu", ps.size(), rs.size());
    if (!(std::fabs(start - wantStart) <= 1e-15 * std::fabs(wantStart))) return fmt("start time loaded as %.17g, the file says %.17g", start, wantStart);
    for (size_t i = 0; i < rs.size(); i++) {
        const Particle& p = ps[i];
        const Rec& q = rs[i];
        if (p.id != (int) i) return fmt("particle %zu has id %d", i, p.id);
        if ((int) p.type != q.type) return fmt("type of particle %zu is %d, the file says %d", i, (int) p.type, q.type);
        if (p.fluidType != q.ftype) return fmt("fluid type of particle %zu is %d, the file says %d", i, p.fluidType, q.ftype);
        for (int k = 0; k < 3; k++) {
            if (!(std::fabs(p.position[k] - q.x[k]) <= rel * std::fabs(q.x[k]))) return fmt("position component %d of particle %zu is %.17g, the file says %.17g", k, i, p.position[k], q.x[k]);
            if (!(std::fabs(p.velocity[k] - q.v[k]) <= rel * std::fabs(q.v[k]))) return fmt("velocity component %d of particle %zu is %.17g, the file says %.17g", k, i, p.velocity[k], q.v[k]);
        }
        double want = hasDensity[i] && q.rho >= 0 ? q.rho : defaultDensity;
        if (!(std::fabs(p.density - want) <= rel * want)) return fmt("density of particle %zu is %.17g, expected %.17g (default %.17g)", i, p.density, want, defaultDensity);
        if (p.pressure != 0 || p.numberDensity != 0 || !p.neighbors.empty()) return fmt("particle %zu starts with pressure %g and number density %g", i, p.pressure, p.numberDensity);
    }
    return "";
}
// ---------------------------------------------------------------- P15: hostile files through the whole program, in process
static string hostileToken(Rng& r) {
    switch (r.i(0, 9)) {
    case 0: return r.pick({"nan", "inf", "-inf", "-nan", "NaN", "infinity", "nan(0x1)"});
    case 1: return r.pick({"1e308", "-1e308", "1.7976931348623157e308", "1e999", "-1e999", "1e-320", "5e-324", "1e-999"});
    case 2: return r.pick({"2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "-1", "4294967295", "9223372036854775807"});
    case 3: return r.pick({"0", "-0", "-0.0", "0x1p3", "0x10", "1_000", "+5", "++5", "1.5.5", ".", "e", "1e", "1e+"});
    case 4: return string(r.i(1, 3000), r.pick({'1', '9', ' ', 'x', '.', '-', '"'}));
    case 5: return r.pick({"", " ", "\t", ",", ",,", "\n", "\r", "\n\n", "\"", "'"});
    case 6: { string s; int n = r.i(1, 20); for (int k = 0; k < n; k++) s += (char) r.i(0, 255); return s; }
    case 7: return r.pick({"-5", "4", "7", "100", "-2147483648", "3", "2", "1"}); // particle types
    case 8: return fmt("%.17g", r.p(0.5) ? r.u(0, 8) : r.u(-100, 100));
    default: return r.pick({"<DataArray", "</DataArray>", "\"Position\"", "Time", "NumberOfPoints=\"99\"", "NumberOfPoints=\"-1\"", "</VTKFile>", "\"Density\"", "type,x,y", "density"});
    }
}
static void mutate(Rng& r, string& t) {
    int k = r.p(0.3) ? 0 : r.p(0.6) ? 1 : r.i(1, 12);
    while (k-- > 0) {
        if (t.empty()) { t = hostileToken(r); continue; }
        size_t a = r.next() % t.size(), b = std::min(t.size(), a + r.i(0, r.p(0.8) ? 12 : 400));
        switch (r.i(0, 7)) {
        case 0: t[a] = (char) r.i(0, 255); break;
        case 1: t.resize(a); break;
        case 2: t.erase(a, b - a); break;
        case 3: t.insert(r.next() % (t.size() + 1), t.substr(a, b - a)); break;
        case 4: t[a] ^= 1 << r.i(0, 7); break;
        default: { // replace a token
            size_t e = t.find_first_of(" ,\n\r\t\"", a), f = t.find_last_of(" ,\n\r\t\"", a);
            f = f == string::npos ? 0 : f + 1;
            if (e == string::npos) e = t.size();
            if (f > e) f = e;
            t.replace(f, e - f, hostileToken(r));
        }
        }
        if (t.size() > 3000000) t.resize(3000000);
    }
}
static void hostile(Case& c, string text, const string& ext) {
    Rng& r = c.rng;
    mutate(r, text);
    if (ext == ".csv") // the CSV library (outside the repository) overflows and then never ends on an exponent of INT_MIN
        for (size_t a = 0; a < text.size(); a++)
            if (text[a] == 'e' || text[a] == 'E') {
                size_t b = a + 1;
                while (b < text.size() && (text[b] == '-' || text[b] == '+')) b++;
                size_t e = b;
                while (e < text.size() && isdigit((unsigned char) text[e])) e++;
                if (e - b > 8) text.erase(b + 8, e - b - 8);
            }
    c.mix(text.data(), text.size());
    fs::path d = fs::path(gWorkDir) / "h";
    fs::remove_all(d);
    fs::create_directories(d / "out");
    { std::ofstream f(d / ("in" + ext), std::ios::binary); f << text; }
    int dim = r.p(0.7) ? 2 : 3;
    double l0 = r.pick({0.1, 0.5, 1.0, 0.025}), re = r.u(1.1, 4.1), dt = r.lu(1e-5, 10), width = r.p(0.7) ? 8 : r.pick({0.0, 1e-3, 30.0, 0.5});
    int steps = r.i(0, 4);
    double z = dim == 2 && r.p(0.7) ? 0 : std::min(width, 4.0);
    {
        std::ofstream f(d / "s.yml");
        f << fmt("dim: %d\nparticleDistance: %.17g\ndt: %.17g\nendTime: 1.0e+9\noutputPeriod: %.17g\ncflCondition: 0.3\nnumPhysicalCores: 4\ndomainMin: [0.0, 0.0, 0.0]\ndomainMax: [%.17g, %.17g, %.17g]\n", dim, l0, dt, dt * r.i(0, 2), width, width, z)
          << fmt("defaultDensity: %.17g\nkinematicViscosity: %.17g\ngravity: [0.0, -9.8, 0.0]\nxyz-input: %s\ngravity-norm: 9.8\ngravity-angle: 30\n", r.lu(0.1, 1e4), r.p(0.5) ? 0.0 : r.lu(1e-6, 1e3), r.pick({"true", "false"}))
          << fmt("surfaceDetection-numberDensity-threshold: %.17g\nsurfaceDetection-particleDistribution: %s\nsurfaceDetection-particleDistribution-threshold: 1.0\npressureCalculationMethod: %s\n", r.u(-0.1, 1.1), r.pick({"true", "false"}), r.pick({"Implicit", "Explicit"}))
          << fmt("compressibility: %.17g\nrelaxationCoefficientForPressure: 0.2\nsoundSpeed: %.17g\ncollisionDistanceRatio: %.17g\ncoefficientOfRestitution: %.17g\n", r.pick({0.0, 0.45e-9, 1.0}), r.lu(0.1, 1e4), r.u(0, 1.5), r.u(0, 1))
          << fmt("radiusRatioForNumberDensity: %.17g\nradiusRatioForGradient: %.17g\nradiusRatioForLaplacian: %.17g\nparticlesPath: in%s\noutputVtkInBinary: %s\n", re, r.u(1.1, 3.1), re, ext.c_str(), r.pick({"true", "false"}));
    }
    bool threw = false;
    int made = 0;
    bool ended = callsExit([&] {
        try {
            fs::path sp = d / "s.yml", od = d / "out";
            Loader l;
            Input in = l.load(sp, od);
            MPS m = MPSFactory::create(in);
            Saver s(od, in.settings.outputVtkInBinary);
            double t = in.startTime;
            s.save(m, t);
            for (; made < steps && m.particles.size() < 3000; made++) {
                m.stepForward();
                t += in.settings.dt;
                s.save(m, t);
            }
            for (const auto& p : m.particles)
                for (auto& q : p.neighbors)
                    if (p.type != ParticleType::Ghost && (q.id < 0 || q.id >= m.particles.size())) { c.fail("particle %d has neighbour %d of %d particles", p.id, q.id, m.particles.size()); break; }
            count(m.particles.size() ? "hostile runs that went on" : "hostile runs without particles");
            for (const auto& p : m.particles) {
                if (!p.position.allFinite()) count("particles with non-finite positions carried along");
                else if (p.position.cwiseAbs().maxCoeff() > 1e6) count("particles with huge positions carried along");
                if ((int) p.type < 0 || (int) p.type > 3) count("particles of unknown type carried along");
            }
        } catch (const std::exception&) { threw = true; }
    });
    if (ended) count(made ? "hostile runs stopped in a step" : "hostile files rejected with a message");
    if (threw) count("hostile files rejected with an exception");
    count(("hostile " + ext + " files").c_str());
    c.nontrivial = true;
}

static void loaded(Case& c) {
    Rng& r = c.rng;
    int n = r.p(0.05) ? 0 : r.p(0.1) ? 1 : r.i(2, 60), fm = r.i(0, 2);
    const bool large = c.prop == "P18" && c.index % 2003 == 9;
    if (large) { n = r.i(66000, 68000); fm = c.index / 2003 % 3; count("files of more than 65536 particles loaded"); }
    auto rs = randomState(r, n, false, true);
    bool bad = c.prop == "P15";
    if (bad && r.p(0.8)) {
        double spread = r.pick({8.0, 2.0, 0.5, 0.0});
        for (auto& q : rs) { q.type = r.p(0.95) ? r.pick({1, 1, 1, 2, 3, 0}) : r.i(-3, 9); for (int k = 0; k < 3; k++) { q.x[k] = k == 2 && r.p(0.6) ? 0 : r.u(0, spread); q.v[k] = r.gauss(); } }
    }
    double start = r.p(0.4) ? 0 : r.p(0.5) ? r.i(0, 400) * 0.04 : r.u(-5, 50), defDen = r.pick({1000.0, 850.5, 13600.0, 1.0});
    string eol = r.p(0.15) ? "\r\n" : "\n", name, text;
    vector<char> hasDen(n, 0);
    auto W = [&](double& d, bool is) { string s = num(r, d, is); d = strtod(s.c_str(), nullptr); return s; };
    auto W3 = [&](double* d, const string& sep, bool is) { string a = W(d[0], is); a += sep; a += W(d[1], is); a += sep; return a + W(d[2], is); };
    string st = W(start, false);
    std::pair<double, Particles> got;
    double rel = 0;
    auto file = [&](const char* e) { return fs::path(gWorkDir) / (string("in") + e); };
    auto write = [&](const fs::path& p) { std::ofstream f(p, std::ios::binary); f << text; };
    if (fm == 0) { // profile
        name = "profile";
        auto sp = [&] { return r.p(0.9) ? string(" ") : string(r.i(1, 4), r.p(0.7) ? ' ' : '\t'); };
        text = st + eol + std::to_string(n) + eol;
        for (auto& q : rs) {
            q.ftype = 0;
            if (r.p(0.03)) text += sp();
            text += std::to_string(q.type) + sp() + W3(q.x, sp(), true) + sp() + W3(q.v, sp(), true);
            if (r.p(0.03)) text += sp();
            text += eol;
        }
        if (r.p(0.2) && !text.empty()) text.resize(text.size() - eol.size()); // no end of line at the end
        if (bad) return hostile(c, text, ".prof");
        write(file(".prof"));
        got = ParticlesLoader::Prof().load(file(".prof"), defDen);
        rel = 0;
    } else if (fm == 1) { // CSV
        name = "CSV file";
        vector<string> cols = {"type", "x", "y", "z", "vx", "vy", "vz"};
        bool ft = r.p(0.6), den = r.p(0.5);
        if (ft) cols.push_back("fluidType");
        if (den) cols.push_back("density");
        if (r.p(0.7)) for (int k = (int) cols.size() - 1; k > 0; k--) std::swap(cols[k], cols[r.i(0, k)]);
        string sep = r.p(0.8) ? "," : r.p(0.5) ? ", " : " ,";
        text = st + eol + std::to_string(n) + eol;
        for (size_t k = 0; k < cols.size(); k++) text += (k ? sep : "") + cols[k];
        text += eol;
        for (int i = 0; i < n; i++) {
            auto& q = rs[i];
            if (!ft) q.ftype = 0;
            hasDen[i] = den;
            if (r.p(0.3)) q.rho = r.p(0.5) ? -1 : r.p(0.3) ? 0 : -r.u(0, 2000);
            else q.rho = r.p(0.5) ? r.u(1, 5000) : std::pow(10.0, r.u(-6, 6));
            for (size_t k = 0; k < cols.size(); k++) {
                const string& f = cols[k];
                if (k) text += sep;
                text += f == "type" ? std::to_string(q.type) : f == "fluidType" ? std::to_string(q.ftype) : f == "density" ? W(q.rho, false) : f[0] == 'v' ? W(q.v[f[1] - 'x'], false) : W(q.x[f[0] - 'x'], false);
            }
            text += eol;
        }
        if (r.p(0.2) && n) text.resize(text.size() - eol.size());
        if (bad) return hostile(c, text, ".csv");
        write(file(".csv"));
        got = ParticlesLoader::Csv().load(file(".csv"), defDen);
        rel = 1e-12; // the CSV library's own number parser is not exact
        if (den) count("CSV files with densities");
        if (!ft) count("CSV files without fluid types");
    } else { // ASCII VTU
        name = "VTU file";
        char q = r.p(0.7) ? '"' : '\'';
        auto A = [&](const string& k, const string& v) { return " " + k + "=" + q + v + q; };
        bool ft = r.p(0.6), den = r.p(0.5), nd = r.p(0.7), late = r.p(0.5), vel = r.p(0.93);
        auto begin = [&](const string& type, const string& nm, int comps) {
            vector<string> at = {A("type", type), A("Name", nm), A("NumberOfComponents", std::to_string(comps)), A("format", "ascii")};
            if (r.p(0.4)) for (int k = 3; k > 0; k--) std::swap(at[k], at[r.i(0, k)]);
            string s = "<DataArray";
            for (auto& x : at) s += x;
            return s + ">" + eol;
        };
        string endA = "</DataArray>" + eol;
        string field = "<FieldData>" + eol + "<DataArray" + A("type", "Float64") + A("Name", "Time") + A("NumberOfTuples", "1") + A("format", "ascii") + ">" + eol + st + eol + endA + "</FieldData>" + eol;
        text = "<?xml version='1.0' encoding='UTF-8'?>" + eol + "<VTKFile" + A("type", "UnstructuredGrid") + A("version", "1.0") + A("byte_order", "LittleEndian") + ">" + eol + "<UnstructuredGrid>" + eol;
        if (!late) text += field;
        text += "<Piece" + A("NumberOfPoints", std::to_string(n)) + A("NumberOfCells", std::to_string(n)) + ">" + eol;
        string pts = "<Points>" + eol + begin("Float64", "Position", 3);
        for (auto& p : rs) pts += W3(p.x, " ", true) + eol;
        pts += endA + "</Points>" + eol;
        vector<string> pd;
        string s = begin("Int32", "Particle Type", 1);
        for (auto& p : rs) s += std::to_string(p.type) + eol;
        pd.push_back(s + endA);
        if (vel) {
            s = begin("Float64", "Velocity", 3);
            for (auto& p : rs) s += W3(p.v, " ", true) + eol;
            pd.push_back(s + endA);
        } else for (auto& p : rs) p.v[0] = p.v[1] = p.v[2] = 0;
        if (ft) {
            s = begin("Int32", "Fluid Type", 1);
            for (auto& p : rs) s += std::to_string(p.ftype) + eol;
            pd.push_back(s + endA);
        } else for (auto& p : rs) p.ftype = 0;
        if (den) {
            s = begin("Float64", "Density", 1);
            for (int i = 0; i < n; i++) { hasDen[i] = 1; if (r.p(0.3)) rs[i].rho = -r.u(0, 2000); else rs[i].rho = r.p(0.1) ? 0 : r.p(0.5) ? r.u(1, 5000) : std::pow(10.0, r.u(-6, 6)); s += W(rs[i].rho, true) + eol; }
            pd.push_back(s + endA);
        }
        if (nd)
            for (auto nm : {"Number Density", "Number Density Ratio"}) {
                s = begin("Float64", nm, 1);
                for (int i = 0; i < n; i++) s += num(r, r.u(0, 20), true) + eol;
                pd.push_back(s + endA);
            }
        if (r.p(0.7)) { s = begin("Float64", "Pressure", 1); for (int i = 0; i < n; i++) s += num(r, r.u(0, 2000), true) + eol; pd.push_back(s + endA); }
        if (r.p(0.7)) { s = begin("Int32", "Boundary Condition", 1); for (int i = 0; i < n; i++) s += std::to_string(r.i(0, 4)) + eol; pd.push_back(s + endA); }
        if (r.p(0.6)) for (int k = (int) pd.size() - 1; k > 0; k--) std::swap(pd[k], pd[r.i(0, k)]);
        string data = "<PointData>" + eol;
        for (auto& x : pd) data += x;
        data += "</PointData>" + eol;
        text += r.p(0.7) ? pts + data : data + pts;
        string cells = "<Cells>" + eol + begin("Int64", "connectivity", 1);
        for (int i = 0; i < n; i++) cells += std::to_string(i) + eol;
        cells += endA + begin("Int64", "offsets", 1);
        for (int i = 0; i < n; i++) cells += std::to_string(i + 1) + eol;
        cells += endA + begin("UInt8", "types", 1);
        for (int i = 0; i < n; i++) cells += "1" + eol;
        text += cells + endA + "</Cells>" + eol + "</Piece>" + eol + (late ? field : "") + "</UnstructuredGrid>" + eol + "</VTKFile>" + eol;
        if (bad) return hostile(c, text, ".vtu");
        write(file(".vtu"));
        got = ParticlesLoader::Vtu().load(file(".vtu"), defDen);
        if (den) count("VTU files with densities");
        if (nd && !den) count("VTU files with number densities only");
    }
    c.mix(fm); for (auto& q : rs) { c.mix(q.x[0]); c.mix(q.v[2]); c.mix(q.rho); }
    string e = compare(got.second, rs, got.first, start, defDen, hasDen, rel);
    if (!e.empty()) {
        return c.fail("%s: %s; file begins: %s", name.c_str(), e.c_str(), text.substr(0, 300).c_str());
    }
    count((name + (eol.size() > 1 ? "s with CRLF loaded" : "s loaded")).c_str());
    if (n) c.nontrivial = true;
    c.sample = fmt("%s with %d particles, start time %s", name.c_str(), n, st.c_str());
}

// ---------------------------------------------------------------- P19
static string compare6(const Particles& ps, const vector<Rec>& rs, double start, double time, bool ft, double defDen) {
    if (ps.size() != (int) rs.size()) return fmt("%d particles loaded, %zu saved", ps.size(), rs.size());
    if (!six(start, time)) return fmt("time %.17g loaded as %.17g", time, start);
    for (size_t i = 0; i < rs.size(); i++) {
        const Particle& p = ps[i];
        if (p.id != (int) i || (int) p.type != rs[i].type) return fmt("particle %zu, type %d, loaded as %d, type %d", i, rs[i].type, p.id, (int) p.type);
        if (ft && p.fluidType != rs[i].ftype) return fmt("fluid type %d of particle %zu loaded as %d", rs[i].ftype, i, p.fluidType);
        if (!ft && p.fluidType != 0) return fmt("fluid type of particle %zu loaded as %d", i, p.fluidType);
        for (int k = 0; k < 3; k++)
            if (!six(p.position[k], rs[i].x[k]) || !six(p.velocity[k], rs[i].v[k])) return fmt("particle %zu at %.17g with velocity %.17g (component %d) loaded at %.17g with %.17g", i, rs[i].x[k], rs[i].v[k], k, p.position[k], p.velocity[k]);
        if (p.density != defDen) return fmt("density of particle %zu loaded as %.17g, default is %.17g", i, p.density, defDen);
    }
    return "";
}
static void roundTrip(Case& c) {
    Rng& r = c.rng;
    fs::path dir = fs::path(gWorkDir) / "r";
    fs::remove_all(dir);
    int n = r.p(0.05) ? 0 : r.p(0.05) ? r.i(100, 900) : r.i(1, 50);
    if (c.index % 1801 == 9) { n = r.i(66000, 68000); count("round trips of more than 65536 particles"); }
    auto rs = randomState(r, n, false, true);
    if (r.p(0.3)) for (auto& q : rs) for (int k = 0; k < 3; k++) { if (r.p(0.2)) q.x[k] = r.lu(1e-200, 1e200) * (r.p(0.5) ? -1 : 1); if (r.p(0.2)) q.v[k] = -0.0; }
    double time = r.p(0.3) ? 0 : r.p(0.4) ? r.i(1, 5000) * 0.001 : r.lu(1e-9, 1e7), defDen = r.pick({1000.0, 1.5});
    MPS m;
    m.refValuesForNumberDensity.n0 = r.u(1, 60);
    fill(m, rs);
    int k = r.i(0, 2);
    {
        Saver sv(dir, false);
        for (int q = 0; q < k; q++) sv.save(m, 0);
        sv.save(m, time);
    }
    string num = fmt("output_%04d", k);
    fs::path prof = dir / "prof" / (num + ".prof"), csv = dir / "csv" / (num + ".csv"), vtu = dir / "vtu" / (num + ".vtu");
    struct T { const char* what; std::pair<double, Particles> got; bool ft; };
    vector<T> ts;
    auto load = [&](const char* what, bool ft, const std::function<std::pair<double, Particles>()>& f) {
        int code;
        std::pair<double, Particles> g;
        bool ex = false, thrown = false;
        string why;
        ex = callsExit([&] { try { g = f(); } catch (const std::exception& e) { thrown = true; why = e.what(); } }, &code);
        if (ex || thrown) { c.fail("saved %s of %d particles is not accepted: %s", what, n, thrown ? why.c_str() : "the program stops"); return false; }
        string e = compare6(g.second, rs, g.first, time, ft, defDen);
        if (!e.empty()) { c.fail("%s: %s", what, e.c_str()); return false; }
        count(fmt("%s round trips", what).c_str());
        return true;
    };
    bool ok = load("profile", false, [&] { return ParticlesLoader::Prof().load(prof, defDen); }) && load("CSV", true, [&] { return ParticlesLoader::Csv().load(csv, defDen); }) && load("VTU", true, [&] { return ParticlesLoader::Vtu().load(vtu, defDen); });
    if (!ok) return;
    if ((r.p(0.04) && n < 60)) {
        fs::path out = dir / "conv.csv";
        string cmd = "bash /repo/scripts/prof_to_csv.sh '" + prof.string() + "' '" + out.string() + "' >/dev/null 2>&1";
        if (system(cmd.c_str()) != 0) { c.fail("prof_to_csv.sh failed"); return; }
        load("converted CSV", false, [&] { return ParticlesLoader::Csv().load(out, defDen); });
    }
    for (auto& q : rs) { c.mix(q.x[0]); c.mix(q.v[0]); }
    c.sample = fmt("%d particles saved at time %.9g", n, time);
    if (n) c.nontrivial = true;
    fs::remove_all(dir);
}

static void run(Case& c) {
    if (c.prop == "P17") saved(c);
    else if (c.prop == "P18" || c.prop == "P15") loaded(c);
    else if (c.prop == "P19") roundTrip(c);
    else c.fail("unknown property");
}
int main(int argc, char** argv) { return harnessMain(argc, argv, run); }
