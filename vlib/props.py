"""What each property is decided by."""
CORE_FILES = ["core/packet.rs", "core/attributes.rs", "core/avp.rs", "core/tag.rs", "core/code.rs", "core/vsa.rs", "core/request.rs"]

# property -> (verification groups, back ends, harness binary)
PROPS = {
    "C01": (["core"], ["md5", "openssl"], "core"),
    "C02": (["core"], ["md5", "openssl"], "core"),
    "C03": (["core"], ["md5", "openssl"], "core"),
    "C04": (["core"], ["md5", "openssl"], "core"),
    "C05": (["core"], ["md5", "openssl"], "core"),
    "C06": (["core"], ["md5"], "core"),
    "C07": (["core"], ["md5"], "core"),
    "C08": (["core"], ["md5"], "core"),
    "C09": (["core"], ["md5", "openssl"], "core"),
    "C10": (["core"], ["md5", "openssl"], "core"),
    "C11": (["core"], ["md5"], "core"),
    "C12": (["vsa", "dict"], ["md5"], "core"),
    "C13": (["dict", "core"], ["md5"], "dict"),
    "C14": (["dict"], ["md5"], "dict"),
    "C15": (["dict", "core"], ["md5"], "dict"),
    "C16": (["core", "vsa", "dict"], ["md5", "openssl"], "core"),
    "C17": (["server"], ["md5"], "net"),
    "C18": (["server"], ["md5"], "net"),
    "C19": (["client"], ["md5"], "net"),
    "C24": (["server"], ["md5"], "net"),
    "C25": (["client"], ["md5"], "net"),
    "C20": (["core"], ["md5"], "core"),
    "C21": (["core"], ["md5"], "core"),
    "C22": (["core"], ["md5"], "core"),
    "C23": (["core"], ["md5", "openssl"], "core"),
    "C27": (["dict"], ["md5"], "dict"),
    "C26": (["rand"], ["md5", "openssl"], "core"),
}

TECH = {"C27": "contract-based deductive verification (Verus) of the modules the current generator emits, on every run"}
NOTES = {"C27": "The generator is run on the shipped dictionaries and on three synthetic ones that cover every supported type and option; proved is what it emits for these, for every packet and value. The generator's own functions are not under contract.", "C26": "Proved is the provenance: every octet is a distinct octet drawn from a generator whose type is trusted to be cryptographically strong (rand's ThreadRng, StdRng from entropy, OsRng)."}
NA = {}
# clauses of other properties that a property is built on (clauses about the kind of an error excepted)
IMPLIES = {"C13": {"C06", "C07", "C08", "C09", "C10", "C11"}, "C15": {"C06"}, "C27": {"C12", "C13", "C14", "C15"}, "C23": {"C02", "C04", "C05", "C09", "C10"}}


def counts(prop, clause):
    """is this contract clause part of the argument for the property"""
    return prop in clause.props or ((prop == "C23" or not clause.label.startswith("err")) and bool(IMPLIES.get(prop, set()) & set(clause.props)))


def concerns(prop, c):
    return prop in c.props or any(counts(prop, e) for e in c.ensures)

EXTRA_LITS = {"C17": ["server.rs"], "C18": ["server.rs"], "C24": ["server.rs"], "C19": ["client.rs"], "C25": ["client.rs"]}
