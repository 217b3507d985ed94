"""Building blocks shared by the checks: building the engine, producing LLVM IR of a harness
together with the crates of /repo it calls, building the native replay of the same harness,
running the engine, replaying what it found, and writing evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
SYMRS = os.path.join(V, "engine", "build", "symrs")
JOBS = os.cpu_count() or 8
T0 = time.time()
LOG = []


def log(*a):
    m = " ".join(str(x) for x in a)
    LOG.append(m)
    print("[%6.1fs] %s" % (time.time() - T0, m), flush=True)


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=900, check=True):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if check and p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p


def build_engine():
    src = glob.glob(os.path.join(V, "engine", "*.cpp")) + glob.glob(os.path.join(V, "engine", "*.h"))
    if os.path.exists(SYMRS) and os.path.getmtime(SYMRS) >= max(os.path.getmtime(f) for f in src):
        return
    sh(["make", "-j8", "-C", os.path.join(V, "engine")])


REF = os.path.join(B, "ref")


def build_ref():
    """reference tables from the current gram.y and kwlist.h"""
    src, exe = os.path.join(V, "refgen", "refgen.cpp"), os.path.join(B, "refgen")
    os.makedirs(REF, exist_ok=True)
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        sh(["g++", "-O2", "-o", exe, src])
    tmp = os.path.join(B, "ref.new")
    os.makedirs(tmp, exist_ok=True)
    sh([exe, REPO + "/crates/parser-generator/resources/gram.y", REPO + "/crates/lexer-generator/resources/kwlist.h", tmp])
    sh(["python3", os.path.join(V, "refgen", "lexref.py"), REPO + "/crates/lexer-generator/resources/scan.l", tmp + "/lexdfa.rs"], check=False)
    for f in os.listdir(tmp):
        a, b = os.path.join(tmp, f), os.path.join(REF, f)
        if not os.path.exists(b) or open(a, "rb").read() != open(b, "rb").read():
            os.replace(a, b)
    return json.load(open(os.path.join(REF, "summary.json")))


def tool(name):
    home = os.environ.get("RUSTUP_HOME") or os.path.expanduser("~/.rustup")
    p = "%s/toolchains/%s/lib/rustlib/%s/bin/%s" % (home, NIGHTLY, TRIPLE, name)
    return p


NOINLINE = re.compile(
    r"4core9panicking|3std9panicking|rust_begin_unwind|handle_alloc_error|4core4hash3sip|12___rust_alloc\b|19___rust_alloc_zeroed|14___rust_dealloc|14___rust_realloc|3std7process"
)


GEN_OPEN = """
pub mod verif {
    //! added by /verif: what a harness needs of the generator
    pub use super::bison::{parse_bison, Action, Assoc, AssocDirective, Bison, Component, ComponentId, Rule};
    pub use super::lalr::{Lalr, State};
    pub use super::lexer::TokenKind;
"""
GEN_TABLES = """
    pub fn state() -> State {
        State { items: Vec::new(), edge: Default::default(), item_indices: Default::default() }
    }
    pub fn actions(lalr: &Lalr, terms: &Vec<Component>) -> (Vec<u32>, Vec<i16>, Vec<i16>, Vec<i16>) {
        let (t, d) = super::compress_action_table(lalr, terms);
        (t.state_to_offset, t.compressed_values, t.index_check, d)
    }
    pub fn gotos(lalr: &Lalr, nonterms: &Vec<Component>) -> (Vec<u32>, Vec<i16>, Vec<i16>) {
        let t = super::compress_goto_table(lalr, nonterms);
        (t.state_to_offset, t.compressed_values, t.index_check)
    }
"""


def copy_crate(name, dst, add, edit=None):
    """a copy of a crate of /repo under build/, a library instead of a program; `add`: file -> text to append"""
    src = REPO + "/crates/" + name
    new = dst + ".new"
    shutil.rmtree(new, ignore_errors=True)
    shutil.copytree(src, new, ignore=shutil.ignore_patterns("target"))
    if edit:
        for root, _, fs in os.walk(new):
            for f in fs:
                if f.endswith(".rs"):
                    a = os.path.join(root, f)
                    t = open(a).read()
                    u = edit(os.path.relpath(a, new), t)
                    if u != t:
                        open(a, "w").write(u)
    for f, t in add.items():
        open(new + "/src/" + f, "a").write(t)
    os.unlink(new + "/src/main.rs")
    t = open(new + "/Cargo.toml").read()
    t = "".join(l for l in t.splitlines(True) if "workspace" not in l) + "\n[workspace]\n"
    open(new + "/Cargo.toml", "w").write(t.replace('"../', '"%s/crates/' % REPO))
    # keep the time stamps of what did not change
    for root, _, fs in os.walk(new):
        for f in fs:
            a = os.path.join(root, f)
            b = os.path.join(dst, os.path.relpath(a, new))
            if os.path.exists(b) and open(a, "rb").read() == open(b, "rb").read():
                shutil.copystat(b, a)
    shutil.rmtree(dst, ignore_errors=True)
    os.replace(new, dst)


def prepare_gen(tables=True):
    """a copy of the parser generator as a library, with one module added that opens its private parts"""
    copy_crate("parser-generator", os.path.join(B, "gen-src"), {
        "parser_generator.rs": GEN_OPEN + (GEN_TABLES if tables else "") + "}\n",
        "lib.rs": "#![allow(warnings)]\nmod parser_generator;\npub use parser_generator::verif;\n",
    })


# what the generator would write into the repository is kept instead
GEN_WRITTEN = """
pub mod written {
    static mut FILES: Vec<(String, String)> = Vec::new();
    pub fn write(path: impl AsRef<str>, text: impl AsRef<[u8]>) -> std::io::Result<()> {
        let t = String::from_utf8(text.as_ref().to_vec()).unwrap();
        unsafe { (*std::ptr::addr_of_mut!(FILES)).push((path.as_ref().to_string(), t)) };
        Ok(())
    }
    pub fn copy(_: impl AsRef<str>, _: impl AsRef<str>) -> std::io::Result<u64> {
        Ok(0)
    }
    pub fn take() -> Vec<(String, String)> {
        unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(FILES)) }
    }
    pub struct Command;
    impl Command {
        pub fn new(_: &str) -> Self {
            Command
        }
        pub fn arg(&mut self, _: impl AsRef<str>) -> &mut Self {
            self
        }
        pub fn output(&mut self) -> std::io::Result<()> {
            Ok(())
        }
        pub fn status(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
"""


def prepare_emit():
    """as prepare_gen, with the writing of files and the call of rustfmt replaced by a record of what was to be written"""
    def edit(f, t):
        if f == "src/parser_generator.rs":
            t = re.sub(r",\s*process::Command\b", "", t)
            t = t.replace("std::fs::", "crate::written::").replace("std::process::Command", "crate::written::Command")
            t = re.sub(r"(?<![:\w])Command::new", "crate::written::Command::new", t)
        return t

    copy_crate("parser-generator", os.path.join(B, "gen-src"), {
        "parser_generator.rs": GEN_OPEN + "    pub fn emit(bison: &Bison, lalr: &Lalr) {\n        super::write_file(bison, lalr)\n    }\n}\n",
        "lib.rs": "#![allow(warnings)]\nmod parser_generator;\npub use parser_generator::verif;\n" + GEN_WRITTEN,
    }, edit)


# the generator's resources are those it is given
FLEX_GIVEN = """
pub mod given {
    static mut FILES: Vec<(&'static str, &'static str)> = Vec::new();
    pub fn set(name: &'static str, text: String) {
        unsafe { (*std::ptr::addr_of_mut!(FILES)).push((name, Box::leak(text.into_boxed_str()))) };
    }
    pub fn clear() {
        unsafe { (*std::ptr::addr_of_mut!(FILES)).clear() };
    }
    pub fn get(name: &str) -> Option<&'static str> {
        unsafe { (*std::ptr::addr_of!(FILES)).iter().find(|f| name.ends_with(f.0)).map(|f| f.1) }
    }
}
macro_rules! include_str {
    ($f:literal) => {
        match crate::given::get($f) {
            Some(t) => t,
            None => core::include_str!($f),
        }
    };
}
"""


def prepare_flex(generator=True, emit=False, whole=False):
    """a copy of the scanner generator as a library"""
    if whole:
        def edit(f, t):
            if f == "src/lexer_generator.rs":
                t = re.sub(r"\{([^{}]*?),\s*process::Command\b\s*,?([^{}]*)\}", r"{\1\2}", t)
                t = t.replace("use std::process::Command;", "").replace("std::fs::", "crate::written::").replace("std::process::Command", "crate::written::Command")
                t = re.sub(r"(?<![:\w])Command::new", "crate::written::Command::new", t)
            return t

        copy_crate("lexer-generator", os.path.join(B, "flex-src"), {
            "lib.rs": "#![allow(warnings)]\n" + FLEX_GIVEN + "mod flex_file;\nmod lexer_generator;\npub use lexer_generator::generate;\n" + GEN_WRITTEN,
        }, edit)
        return
    add = {"lib.rs": "#![allow(warnings)]\nmod flex_file;\n%spub mod verif {\n    pub use super::flex_file::parse_flex_file;\n%s}\n" % (("mod lexer_generator;\n", "    pub use super::lexer_generator::verif::*;\n") if generator else ("", ""))}
    if generator:
        add["lexer_generator.rs"] = """
pub mod verif {
    pub fn pattern(f: &super::FlexFile, p: &str) -> (String, bool) {
        super::extract_rule_pattern(f, p)
    }
}
"""
    if emit:
        add["lib.rs"] = add["lib.rs"].replace("parse_flex_file;", "{parse_flex_file, Definition, FlexFile, Rule};")
        add["lexer_generator.rs"] = add["lexer_generator.rs"].rstrip()[:-1] + "".join("    pub fn %s(f: &super::FlexFile) -> %s {\n        super::%s(f)\n    }\n" % x for x in (
            ("states", "String", "construct_states"), ("kinds", "String", "construct_rule_kinds"), ("defs", "String", "construct_rule_defs"),
            ("actions", "String", "construct_actions"), ("by_index", "String", "construct_pattern_actions_by_index"), ("dfa", "(String, String)", "construct_dfa"))) + "}\n"
    copy_crate("lexer-generator", os.path.join(B, "flex-src"), add)


PREPARE = {"gen": prepare_gen, "genlite": lambda: prepare_gen(False), "flex": prepare_flex, "flexlite": lambda: prepare_flex(False), "emit": lambda: prepare_flex(True, True), "whole": lambda: prepare_flex(whole=True), "genemit": prepare_emit}


def prepare(d):
    if d.get("prepare"):
        try:
            PREPARE[d["prepare"]]()
        except OSError as e:
            raise BuildError("cannot copy the sources: %s" % e)


def build_ir(name, crate_dir, cfgs=(), features=(), default_features=True, extra_env=None):
    """-> path of the .ll of the harness crate, all entries h_* kept"""
    out = os.path.join(B, "ir-" + name)
    os.makedirs(out, exist_ok=True)
    flags = "-C save-temps -C symbol-mangling-version=v0 " + " ".join("--cfg " + c for c in cfgs)
    tgt = os.path.join(B, "tgt-ir")
    env = {"RUSTFLAGS": flags, "CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": NIGHTLY}
    env["VERIF_REF"] = REF
    env.update(extra_env or {})
    for f in glob.glob(tgt + "/**/*.lto.input.bc", recursive=True):
        os.unlink(f)
    crate = re.search(r'^name = "([^"]+)"', open(os.path.join(crate_dir, "Cargo.toml")).read(), re.M).group(1)
    for f in glob.glob("%s/%s/debug/deps/%s-*" % (tgt, TRIPLE, crate)) + glob.glob("%s/%s/debug/.fingerprint/%s-*" % (tgt, TRIPLE, crate)) + glob.glob("%s/%s/debug/build/%s" % (tgt, TRIPLE, crate)):
        shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
    cmd = ["cargo", "rustc", "--offline", "--target", TRIPLE]
    if not default_features:
        cmd.append("--no-default-features")
    if features:
        cmd += ["--features", ",".join(features)]
    p = sh(cmd + ["--", "--emit=llvm-bc"], cwd=crate_dir, env=env, check=False)
    bcs = [f for f in glob.glob(tgt + "/**/*.lto.input.bc", recursive=True) if crate in os.path.basename(f)]
    if not bcs:
        raise BuildError("no bitcode for %s\n%s" % (name, p.stdout[-6000:]))
    bc = max(bcs, key=os.path.getmtime)
    opt, dis = tool("opt"), tool("llvm-dis")
    entries = sorted(set(re.findall(r"\b(h_\w+) =>", open(os.path.join(crate_dir, "..", name.split("@")[0], "src", "main.rs")).read())))
    a, a_ll, b = out + "/a.bc", out + "/a.ll", out + "/b.bc"
    sh([opt, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), bc, "-o", a])
    sh([opt, "--strip-debug", "-passes=globaldce", a, "-S", "-o", a_ll])
    lines = []
    for l in open(a_ll):
        if l.startswith("define "):
            m = re.search(r'@"?([\w.$]+)"?\(', l)
            if m and NOINLINE.search(m.group(1)):
                # attributes follow the parameter list: put noinline right after its closing parenthesis
                d, k = 0, m.end() - 1
                while True:
                    d += {"(": 1, ")": -1}.get(l[k], 0)
                    k += 1
                    if d == 0:
                        break
                u = re.match(r" (local_)?unnamed_addr", l[k:])
                k += u.end() if u else 0
                l = l[:k] + " noinline" + l[k:]
        lines.append(l)
    open(a_ll, "w").writelines(lines)
    ll = out + "/out.ll"
    sh([opt, "-passes=default<O1>", a_ll, "-S", "-o", ll])
    for f in (a, a_ll):
        os.unlink(f)
    return ll


def run_engine(ll, entry, params=None, max_time=120, out=None, max_viol=2000, samples=20, seed=1, max_instr=20000000, jobs=None):
    """Explore one entry; merged results of all worker processes"""
    out = out or os.path.join(B, "out", entry + "-" + hashlib.md5(repr(sorted((params or {}).items())).encode()).hexdigest()[:8])
    if os.path.isdir(out):
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
    os.makedirs(out, exist_ok=True)
    cmd = [SYMRS, ll, "--entry", entry, "--out", out, "--jobs", str(jobs or JOBS), "--max-time", str(max_time), "--max-viol", str(max_viol), "--samples", str(samples), "--seed", str(seed), "--max-instr", str(max_instr)]
    for k, v in (params or {}).items():
        cmd += ["--param", "%d=%d" % (k, v)]
    p = sh(cmd, timeout=max_time + 120, check=False)
    if not os.path.exists(out + "/main.json"):
        raise BuildError("engine failed on %s %s\n%s" % (entry, params, p.stdout[-3000:]))
    m = json.load(open(out + "/main.json"))
    r = {"entry": entry, "params": params or {}, "stop": m["stop"], "wall_s": m["wall_s"], "events": [], "samples": [], "reach": {}, "event_counts": {}, "funcs": {}, "n": {}, "stdout": p.stdout[-2000:]}
    for f in glob.glob(out + "/res.*"):
        d = json.load(open(f))
        for k, v in d.items():
            if isinstance(v, (int, float)):
                r["n"][k] = r["n"].get(k, 0) + v
            elif isinstance(v, dict):
                for a, b in v.items():
                    r[k][a] = r[k].get(a, 0) + b
            else:
                r[k] += v
    r["events"].sort(key=lambda e: (e["kind"], e["id"], e["label"], json.dumps(e["inputs"])))
    r["samples"].sort(key=lambda e: json.dumps(e["inputs"]))
    # 0 = every path was explored
    r["complete"] = m["stop"] == 0 and m["rc"] == 0 and not r["n"].get("abandoned") and not r["n"].get("limit")
    shutil.rmtree(out)
    return r


def build_native(name, crate_dir, cfgs=(), features=(), default_features=True):
    """the same harness as an ordinary program (dev profile), for replaying"""
    tgt = os.path.join(B, "tgt-native")
    env = {"RUSTFLAGS": " ".join("--cfg " + c for c in cfgs), "CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": NIGHTLY, "VERIF_REF": REF}
    cmd = ["cargo", "build", "--offline", "--message-format=json"]
    if not default_features:
        cmd.append("--no-default-features")
    cmd += ["--features", ",".join(["native", *features])]
    p = sh(cmd, cwd=crate_dir, env=env, check=False)
    exe = None
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("executable"):
                exe = d["executable"]
    if p.returncode or not exe:
        msgs = [json.loads(l).get("message", {}).get("rendered") or "" for l in p.stdout.splitlines() if l.startswith('{"reason":"compiler-message"')]
        raise BuildError("native build of %s\n%s" % (name, ("\n".join(msgs) or p.stdout)[-4000:]))
    return exe


def replay(exe, entry, params, inputs, timeout=20):
    """run one recorded input; -> (exit code or None on timeout, output)"""
    f = os.path.join(B, "replay-%d-%s.txt" % (os.getpid(), hashlib.md5(json.dumps([entry, params, inputs]).encode()).hexdigest()[:10]))
    with open(f, "w") as o:
        o.write("".join("%s %s\n" % (k, v) for k, v in inputs))
    env = {"SYM_REPLAY": f, "RUST_BACKTRACE": "0"}
    for k, v in params.items():
        env["SYM_PARAM_%s" % k] = str(v)
    try:
        # a run that allocates without end must fail, not take the machine's memory
        p = sh(["prlimit", "--as=%d" % (8 << 30), exe, entry], env=env, timeout=timeout, check=False)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, "timeout"
    finally:
        os.unlink(f)
