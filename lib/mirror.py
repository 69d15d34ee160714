"""Lays out the crates that need cardano-multiplatform-lib (not available offline) without the parts
that do: symlinks to /repo's files, except for the manifest and the module roots, which are
/repo's with the lines about the missing parts taken out, anew on every run."""
import os, re, shutil

REPO = "/repo"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build", "mirror")
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs")
CML = r"^cardano-multiplatform-lib\b|^cml-[\w-]+ *="


def drop(pattern):
    return lambda text: "".join(x for x in text.splitlines(True) if not re.search(pattern, x))


def drop_modules(*names):
    n = "|".join(names)
    return drop(rf"^(pub(\([^)]*\))? )?(mod ({n});|use (self::)?({n})::)")


def without_cml(d):
    """The modules of a module root, without those whose files mention CML."""
    def f(text):
        bad = []
        for m in re.findall(r"^(?:pub(?:\([^)]*\))? )?mod (\w+);", text, re.M):
            files = [f"{d}/{m}.rs"] if os.path.isfile(f"{d}/{m}.rs") else []
            for p, _, fs in os.walk(f"{d}/{m}"):
                files += [os.path.join(p, x) for x in fs]
            src = "".join(open(x).read() for x in files)
            code = re.sub(r"#\[cfg\(test\)\]\s*mod tests \{.*", "", src, flags=re.S)
            if re.search(r"cardano_multiplatform_lib|\bcml_\w+::|cardano_utils::(multisig_plan|network_id|utxo|payment_credentials)", code):
                bad.append(m)
        return drop_modules(*bad)(text) if bad else text
    return f


CRATES = {
    "utxo-selection": {
        "Cargo.toml": drop(CML + r"|^cardano-utils\b"),
        "src/estimators/mod.rs": without_cml(f"{REPO}/utxo-selection/src/estimators"),
        "src/algorithms/mod.rs": without_cml(f"{REPO}/utxo-selection/src/algorithms"),
    },
    "cardano-utils": {
        "Cargo.toml": drop(CML),
        "src/lib.rs": drop_modules("multisig_plan", "network_id", "payment_credentials", "utxo"),
    },
    # whole, on top of stand-ins for what it names of CML
    "blockchain-source": {
        "Cargo.toml": lambda text: re.sub(r"(?m)^(cml-[\w-]+) *=.*$", lambda m: f'{m.group(1)} = {{ path = "{STUBS}/{m.group(1)}" }}', text),
    },
}
# and on top of a stand-in for CML itself, next to the others
WHOLE = {c: {"Cargo.toml": lambda text: re.sub(r"(?m)^cardano-multiplatform-lib *=.*$", f'cardano-multiplatform-lib = {{ path = "{STUBS}/cardano-multiplatform-lib" }}', text)} for c in ("cardano-utils", "utxo-selection")}
LINKS = ["core", "deps", "multiverse"]
NEEDS = {"hselect": ["utxo-selection"], "hutils": ["cardano-utils"], "hsource": ["blockchain-source"]}


def remove(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.remove(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.symlink(src, dst)


def write(dst, text):
    if os.path.isfile(dst) and not os.path.islink(dst) and open(dst).read() == text:
        return
    remove(dst)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "w") as f:
        f.write(text)


def layout(crate, edits, out=OUT):
    src, dst, want = f"{REPO}/{crate}", f"{out}/{crate}", set()
    for d, dirs, files in os.walk(src):
        dirs[:] = [x for x in dirs if x not in ("target", ".git")]
        for name in files:
            rel = os.path.relpath(os.path.join(d, name), src)
            if rel == "Cargo.lock":
                continue
            want.add(rel)
            if rel in edits:
                write(f"{dst}/{rel}", edits[rel](open(f"{src}/{rel}").read()))
            else:
                link(f"{src}/{rel}", f"{dst}/{rel}")
    for d, dirs, files in os.walk(dst):
        for name in files:
            if os.path.relpath(os.path.join(d, name), dst) not in want:
                os.remove(os.path.join(d, name))


def prepare(harness):
    for crate in NEEDS.get(harness, []):
        for l in LINKS:
            link(f"{REPO}/{l}", f"{OUT}/{l}")
        layout(crate, CRATES[crate])
    if harness == "hledger":
        for l in LINKS:
            link(f"{REPO}/{l}", f"{OUT}/whole/{l}")
        for crate in WHOLE:
            layout(crate, WHOLE[crate], f"{OUT}/whole")
