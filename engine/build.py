"""Copies /repo's current sources to a scratch directory and compiles harnesses."""
import concurrent.futures as cf
import os
import shutil
import subprocess
import tempfile
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PICOPIC_REPO", "/repo")

BASE = {
    "CXXFLAGS": '"-O3"', "PACKAGE_NAME": '"PiCoPiC"', "PACKAGE_STRING": '"PiCoPiC x"', "PACKAGE_TARNAME": '"picopic"',
    "PACKAGE_VERSION": '"x"', "PACKAGE_DEPS": '""', "PACKAGE_URL": '""', "PACKAGE_BUGREPORT": '""',
    "ENABLE_SINGLETHREAD": "1",
    "ENABLE_PML": "true",
    "SWITCH_MAXWELL_SOLVER_YEE": "true", "REL_LIMIT": "5e7",
    "SWITCH_PUSHER_BORIS_ADAPTIVE": "true", "SWITCH_PLASMA_SPATIAL_FLAT": "true",
    "SWITCH_PLASMA_VELOCITY_THERMAL": "true", "SWITCH_CCS_VB": "true",
}
# a variant value None removes a define
VARIANTS = {
    "default": {},
    "nopml": {"ENABLE_PML": None},
    "boris": {"SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_BORIS": "true"},
    "borisrel": {"SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_BORIS_RELATIVISTIC": "true"},
    "vay": {"SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_VAY": "true"},
    "hc": {"SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_HC": "true"},
    "zigzag": {"SWITCH_CCS_VB": None, "SWITCH_CCS_ZIGZAG": "true"},
    "regular": {"SWITCH_PLASMA_SPATIAL_FLAT": None, "SWITCH_PLASMA_SPATIAL_REGULAR": "true"},
    "centered": {"SWITCH_PLASMA_SPATIAL_FLAT": None, "SWITCH_PLASMA_SPATIAL_CENTERED": "true"},
    "random": {"SWITCH_PLASMA_SPATIAL_FLAT": None, "SWITCH_PLASMA_SPATIAL_RANDOM": "true"},
    "external": {"ENABLE_EXTERNAL_FIELDS": "true"},
    "external_vay": {"ENABLE_EXTERNAL_FIELDS": "true", "SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_VAY": "true"},
    "external_hc": {"ENABLE_EXTERNAL_FIELDS": "true", "SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_HC": "true"},
    "external_nopml": {"ENABLE_EXTERNAL_FIELDS": "true", "ENABLE_PML": None},
    "ta77s": {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_TA77S": "true"},
    "sk98": {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_SK98": "true"},
    "p12": {"ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_P12": "true"},
    "mpi": {"ENABLE_MPI": "true"},
    "mpi_nopml": {"ENABLE_MPI": "true", "ENABLE_PML": None},
    "omp": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1"},
    "omp_nopml": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "ENABLE_PML": None},
    "omp_zigzag": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "SWITCH_CCS_VB": None, "SWITCH_CCS_ZIGZAG": "true"},
    "omp_external": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "ENABLE_EXTERNAL_FIELDS": "true",
                     "SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_VAY": "true"},
    "omp_eigen": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "SWITCH_PLASMA_VELOCITY_THERMAL": None, "SWITCH_PLASMA_VELOCITY_EIGEN": "true",
                  "SWITCH_PLASMA_SPATIAL_FLAT": None, "SWITCH_PLASMA_SPATIAL_RANDOM": "true"},
    "omp_rect": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "SWITCH_PLASMA_VELOCITY_THERMAL": None, "SWITCH_PLASMA_VELOCITY_RECTANGULAR": "true"},
    "omp_ta77s": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_TA77S": "true"},
    "omp_sk98": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_SK98": "true"},
    "omp_p12": {"ENABLE_SINGLETHREAD": None, "V_OMP": "1", "ENABLE_COULOMB_COLLISIONS": "true", "SWITCH_COULOMB_COLLISIONS_P12": "true"},
    "hdf5": {"ENABLE_HDF5": "true"},
    "signals": {"ENABLE_HDF5": "true", "V_SIGNALS": "1"},
    "config": {"ENABLE_SINGLETHREAD": None, "V_CONFIG": "1"},
    "config_single": {"V_CONFIG": "1"},
    "config_external": {"ENABLE_SINGLETHREAD": None, "V_CONFIG": "1", "ENABLE_EXTERNAL_FIELDS": "true"},
    "config_zz": {"ENABLE_SINGLETHREAD": None, "V_CONFIG": "1", "ENABLE_PML": None, "SWITCH_CCS_VB": None, "SWITCH_CCS_ZIGZAG": "true",
                  "SWITCH_PUSHER_BORIS_ADAPTIVE": None, "SWITCH_PUSHER_VAY": "true"},
    "rect": {"SWITCH_PLASMA_VELOCITY_THERMAL": None, "SWITCH_PLASMA_VELOCITY_RECTANGULAR": "true"},
    "eigen": {"SWITCH_PLASMA_VELOCITY_THERMAL": None, "SWITCH_PLASMA_VELOCITY_EIGEN": "true"},
}

COMMON = ["-std=c++17", "-fno-access-control", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-w"]
SYM = COMMON + ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-math-errno", "-fno-pic",
                "-mllvm", "-speculate-one-expensive-inst=false", "-mllvm", "-two-entry-phi-node-folding-threshold=1",
                "-emit-llvm"]
NAT = COMMON + ["-O1", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
                "-D_GLIBCXX_SANITIZE_VECTOR=1"]


# threads: the code reports each use of memory to native_omp.cpp
NAT_OMP = COMMON + ["-O1", "-g0", "-fopenmp", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern"]


def threads(variant):
    return "V_OMP" in VARIANTS[variant]


class BuildError(Exception):
    pass


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="picopic_verif_")
        self.lock = threading.Lock()
        self.locks = {}

    def tree(self, variant):
        d = os.path.join(self.dir, "v_" + variant)
        if not os.path.isdir(d):
            tmp = tempfile.mkdtemp(dir=self.dir)
            for sub in ("include", "src"):
                shutil.copytree(os.path.join(REPO, sub), os.path.join(tmp, sub),
                                ignore=shutil.ignore_patterns("defines.hpp", "*~", "*.o"))
            defs = dict(BASE)
            for k, v in VARIANTS[variant].items():
                if v is None:
                    defs.pop(k, None)
                else:
                    defs[k] = v
            with open(os.path.join(tmp, "include", "defines.hpp"), "w") as f:
                for k, v in sorted(defs.items()):
                    f.write("#define %s %s\n" % (k, v))
            os.rename(tmp, d)
        return d

    def incs(self, d):
        return ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "stubs"), "-I", os.path.join(d, "include"),
                "-I", os.path.join(d, "src")]

    def sources(self, harness):
        """the harness file and the repository sources it names on its '//src:' lines"""
        src = os.path.join(VERIF, "harness", harness + ".cpp")
        names = []
        with open(src) as f:
            for ln in f:
                if ln.startswith("//src:"):
                    names += ln[6:].split()
        return src, names

    def cc(self, cmd, what):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s: %s" % (what, r.stderr[-3000:]))

    def once(self, out, cmd, what):
        with self.lock:
            lk = self.locks.setdefault(out, threading.Lock())
        with lk:
            if not os.path.exists(out):
                self.cc(cmd + ["-o", out + ".tmp"], what)
                os.rename(out + ".tmp", out)
        return out

    def objs(self, harness, variant, flags, ext, extra=()):
        d = self.tree(variant)
        src, names = self.sources(harness)
        jobs = [(os.path.join(self.dir, "%s.%s%s" % (harness, variant, ext)), src)]
        jobs += [(os.path.join(self.dir, "%s.%s%s" % (n.replace("/", "_"), variant, ext)), os.path.join(d, "src", n))
                 for n in names]
        with cf.ThreadPoolExecutor(4) as ex:
            return list(ex.map(lambda j: self.once(j[0], ["clang++"] + flags + self.incs(d) + ["-c", j[1]],
                                                   "%s (%s)" % (harness, variant)), jobs))

    def compile_ll(self, harness, variant):
        bcs = self.objs(harness, variant, SYM + (["-fopenmp"] if threads(variant) else []), ".bc")
        out = os.path.join(self.dir, "%s.%s.ll" % (harness, variant))
        return self.once(out, ["llvm-link", "-S"] + bcs, "llvm-link")

    def compile_native(self, harness, variant, entry):
        if threads(variant):
            return self.compile_threads(harness, variant, entry)
        os_ = self.objs(harness, variant, NAT, ".o")
        rt = self.once(os.path.join(self.dir, "native.%s.o" % entry),
                       ["clang++"] + NAT + ["-I", os.path.join(VERIF, "harness"), "-DENTRY=" + entry, "-DV_FILL_NEW", "-c",
                                            os.path.join(HERE, "native.cpp")], "native runtime")
        out = os.path.join(self.dir, "%s.%s.%s.bin" % (harness, variant, entry))
        return self.once(out, ["clang++"] + NAT + os_ + [rt], "native link %s" % harness)

    def compile_threads(self, harness, variant, entry):
        os_ = self.objs(harness, variant, NAT_OMP, ".o")
        flags = COMMON + ["-O1", "-pthread"]
        for name, extra in (("native", ["-DENTRY=" + entry, "-DV_FILL_NEW", "-DV_LEAK"]), ("native_omp", [])):
            os_.append(self.once(os.path.join(self.dir, "%s.%s.omp.o" % (name, entry)),
                                 ["clang++"] + flags + extra + ["-I", os.path.join(VERIF, "harness"), "-c", os.path.join(HERE, name + ".cpp")],
                                 "native runtime"))
        return self.once(os.path.join(self.dir, "%s.%s.%s.bin" % (harness, variant, entry)), ["clang++"] + flags + os_,
                         "native link %s" % harness)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
