# Foreign interpreter environments (used by the environment property and the
# determinism self-test).
ENVS = {
    "base": {"env": {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8"}},
    "hash1": {"env": {"PYTHONHASHSEED": "1", "LC_ALL": "C.UTF-8"}},
    "hash4242": {"env": {"PYTHONHASHSEED": "4242", "LC_ALL": "C.UTF-8"}},
    "clocale": {"env": {"PYTHONHASHSEED": "7", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}},
    "posix": {"env": {"PYTHONHASHSEED": "99", "LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
                      "PYTHONIOENCODING": "ascii"}},
    "utf8mode": {"env": {"PYTHONHASHSEED": "3", "LC_ALL": "C", "PYTHONUTF8": "1"}},
    "dev": {"env": {"PYTHONHASHSEED": "5", "LC_ALL": "C.UTF-8"}, "args": ["-X", "dev", "-W", "ignore::ResourceWarning"]},
    "cold": {"env": {"PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8", "L2J_COLD": "1"}},
    "opt": {"env": {"PYTHONHASHSEED": "11", "LC_ALL": "C.UTF-8"}, "args": ["-O"]},
}
