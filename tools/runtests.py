"""run the repository's tests on a scratch copy the way /opt/vp/test.sh does; returns the summary line"""
import os, subprocess


def run(repo, extra=()):
    e = dict(os.environ, PYTHONPATH=repo + ":/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    t = subprocess.run(["/opt/venv/bin/pytest", "-q", "-c", "/dev/null", "--rootdir=" + repo, "-p", "no:cacheprovider", "-p", "vp_testclass",
                        "-p", "pytest_timeout", "--import-mode=importlib", "--timeout=30", "--continue-on-collection-errors", repo + "/ama_xiv_combat_sim", *extra],
                       cwd=repo + "/ama_xiv_combat_sim", env=e, capture_output=True, text=True)
    out = t.stdout.strip().splitlines()
    return (out[-1] if out else t.stderr[-300:]), "\n".join(x for x in out if x.startswith("FAILED"))
