"""Scratch build of the repository's current working tree (never in /repo, never in /opt/vp)."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env():
    e = dict(os.environ)
    e.update(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMPI_ALLOW_RUN_AS_ROOT="1",
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C.UTF-8")
    e.pop("PYTHONPATH", None)
    return e


def scratch_build(native=True):
    """copy /repo/tbplas and build the extensions; returns the scratch root"""
    root = tempfile.mkdtemp(prefix="vk_build_")
    src = os.path.join(root, "src")
    shutil.copytree(os.path.join(REPO, "tbplas"), os.path.join(src, "tbplas"),
                    ignore=shutil.ignore_patterns("*.so", "__pycache__"))
    shutil.copy(os.path.join(REPO, "CMakeLists.txt"), src)
    e = env()
    e["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    if native:
        bld = os.path.join(root, "build")
        cfg = ["cmake", "-S", src, "-B", bld, "-G", "Ninja", "--log-level=NOTICE",
               "-DSKBUILD_PROJECT_NAME=tbplas", "-DCMAKE_BUILD_TYPE=Release",
               f"-DPython_EXECUTABLE={PY}", f"-DPYTHON_EXECUTABLE={PY}", "-DCYTHON=/opt/venv/bin/cython",
               "-DUSE_INDEX64=OFF", "-DUSE_MKL=OFF", "-DCMAKE_C_COMPILER=gcc",
               "-DCMAKE_Fortran_COMPILER=gfortran", "-DCMAKE_C_FLAGS=",
               "-DCMAKE_Fortran_FLAGS=-cpp -fopenmp -fno-second-underscore"]
        for cmd in (cfg, ["cmake", "--build", bld],
                    ["cmake", "--install", bld, "--prefix", os.path.join(root, "inst")]):
            r = subprocess.run(cmd, env=e, capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout[-3000:] + r.stderr[-3000:])
                shutil.rmtree(root, ignore_errors=True)
                raise RuntimeError("build failed")
        for d in ("fortran", "cython"):
            dd = os.path.join(root, "inst", "tbplas", d)
            for f in os.listdir(dd):
                if f.endswith(".so"):
                    shutil.copy(os.path.join(dd, f), os.path.join(src, "tbplas", d, f))
        shutil.rmtree(bld, ignore_errors=True)
        shutil.rmtree(os.path.join(root, "inst"), ignore_errors=True)
    return root


def cleanup(root):
    if root and os.path.basename(root).startswith("vk_build_"):
        shutil.rmtree(root, ignore_errors=True)
