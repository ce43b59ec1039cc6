#!/usr/bin/env python3
"""seam.py SRC: in a scratch copy of wasmtimer's sources, lets every synchronisation primitive be the
one of crate::sim, however it is named. Only used when the guarded imports don't compile."""
import re, sys, pathlib
src = pathlib.Path(sys.argv[1])
SEAMED = "AtomicPtr|AtomicBool|AtomicUsize|AtomicU32|AtomicU64"
SYNC = "Mutex|MutexGuard"
for f in src.rglob("*.rs"):
    if f.name == "sim.rs":
        continue
    s = f.read_text()
    o = s
    # imports that are guarded already stay as they are
    keep = []
    def hide(m):
        keep.append(m.group(0))
        return f"\0{len(keep) - 1}\0"
    s = re.sub(r"#\[cfg\((?:all\([^)]*\)|not\(wasmtimer_sim\))+\)\]\s*(?:pub(?:\([a-z]*\))? )?use [^;]*;", hide, s)
    def group(m):
        names = [n.strip() for n in m.group(3).split(",") if n.strip()]
        seamed = [n for n in names if re.fullmatch(m_names, n.split(" as ")[0])]
        rest = [n for n in names if n not in seamed]
        r = f"use {to}{{{', '.join(seamed)}}};" if seamed else ""
        if rest:
            r += f" use {m.group(2)}{{{', '.join(rest)}}};"
        return m.group(1) + r.strip()
    for path, m_names, to in ((r"(?:::)?(?:std|core)::sync::atomic::", SEAMED, "crate::sim::"), (r"(?:::)?std::sync::", SYNC, "crate::sim::"),
                              (r"(?:::)?parking_lot::", "Mutex|MutexGuard", "crate::sim::parking::"), (r"(?:::)?futures::task::", "AtomicWaker", "crate::sim::")):
        s = re.sub(r"((?:^|\n)[ \t]*)use (" + path + r")\{([^{}]*)\};", group, s)
        s = re.sub(r"(?<![:\w])" + path + r"(" + m_names + r")\b", to + r"\1", s)
    # names that only a guarded import brought in
    extra = set()
    for k in keep:
        for n in re.findall(r"\b[A-Z]\w*", k):
            if n in ("Condvar", "Once", "OnceLock", "LazyLock", "RwLock", "RwLockReadGuard", "RwLockWriteGuard", "LockResult", "PoisonError", "TryLockError",
                     "AtomicI32", "AtomicI64", "AtomicIsize", "AtomicU8", "AtomicU16", "Ordering"):
                base = "std::sync::atomic::" if n.startswith("Atomic") or n == "Ordering" else "std::sync::"
                extra.add(f"#[allow(unused_imports)] use {base}{n};")
    s = re.sub(r"\0(\d+)\0", lambda m: keep[int(m.group(1))], s)
    if extra and "use crate::sim::*;" in s:
        s = s.replace("use crate::sim::*;", "use crate::sim::*;\n" + "\n".join("#[cfg(wasmtimer_sim)] " + e for e in sorted(extra)), 1)
    if s != o:
        f.write_text(s)
sim = src / "sim.rs"
sim.write_text(sim.read_text() + """
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
""")
