set -e
cd /verif
python3-vt -c "import z3; print(z3.get_version_string())"
clang++ --version | head -1; g++ --version | head -1; opt --version | head -2 | tail -1
mkdir -p /verif/evidence
