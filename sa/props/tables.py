"""Numbers the protocol assigns, and the schemas of the configuration exchange."""
from ..harness import *
from ..harness import _short
from .params import schema_members, field_ok, marsh, names_of, pairs
from .. import models as M

K = "elgas.constants."
E = "elgas.parameters.enumerations."

ARCHIVES = dict(EXTREME=0, DATA=1, BINARY=2, DAILY=3, MONTHLY=4, SETTING=5, FAST_1=6, FAST_2=7, STATUS=8, BILLING=9, GAS_COMPOSITION=10)
NUMBERS = {
    K + "ServiceNumber": dict(READ_VALUES=0x64, WRITE_VALUES=0x65, SEARCH_ARCHIVE_POINTERS_OLD=0x67, SEARCH_ARCHIVE_POINTERS=0x7B, READ_ARCHIVES_OLD=0x68,
                              READ_ARCHIVES=0x7C, READ_DEVICE_TIME=0x6C, READ_SCADA_PARAMETERS=0x70, WRITE_DEVICE_TIME=0x71, GROUP_WRITE_VALUES=0x77,
                              GROUP_READ_VALUES=0x79, CALL=0x87, READ_ARCHIVES_BY_DATE_OLD=0x91, READ_ARCHIVES_BY_DATE=0x7D),
    K + "Archive": ARCHIVES,
    "elgas.application.Archive": ARCHIVES,
    K + "Protocol": dict(ELGAS2=0, QMD=1, RDS=2, MODBUS=3),
    "elgas.security.EncryptionKeyId": dict(FACTORY=1, TEMPORARY=2, ADMINISTRATOR=3, MAINTENANCE=4, USER_1=5, USER_2=6, USER_3=7),
    E + "DeviceType": dict(ELCOR=128, ELCOR_PLUS=131, ELCOR_LITE=134),
    E + "CertificationVariant": dict(CMI_MID=2, GENERIC=4),
    E + "SwitchFunction": dict(NONE=0, PROTECT_METROLOGICAL=1, PROTECT_ALL=2),
    E + "CompressibilityFormula": dict(CONST=0, AGANX19=1, SGERG88=2, AGANX19MOD=3, AGA8G1=4, AGA8G2=5, AGA892DC=6, GOSTNX19MOD=7),
    E + "ParameterObjectType": dict(
        SYSTEM_PARAMETER=0, ANALOG_MEASURAND=30, BINARY=31, COUNTER=32, STANDARD_COUNTER=33, FLOW_RATE=34, STANDARD_FLOW_RATE=35, CONVERSION_COEFFICIENT=36,
        ERROR_COUNTER=45, ERROR_STANDARD_COUNTER=46, COMPRESSIBILITY=47, TIME_WINDOW=48, CORRECTION_COUNTER=49, DOUBLE_COUNTER=53, DOUBLE_ERROR_COUNTER=54,
        DIAGNOSTICS=59, DEVICE_ERROR=61, SUM_OF_ALARMS=62, TIMER=65, TARIFF_COUNTER=68, BASE_TARIFF_COUNTER=69, SET_POINT=70, DIFFERENCE_COUNTER=72,
        DIFFERENCE_BASE_COUNTER=73, COMPRESSIBILITY_Z=74, COMPRESSIBILITY_Z_BASE=75, ENERGY=77, ERROR_ENERGY=78, DOUBLE_TARIFF_COUNTER=79, ANALOG_STATISTICS=80,
        COUNTER_STATISTICS=81, STANDARD_COUNTER_STATISTICS=82, STATISTICS=83, ANALOG_TIME_STATISTICS=84, TIME_STATISTICS=85, MODEM=141),
}
SERVICES = dict(ReadInstantaneousValues=0x64, ReadTime=0x6C, WriteTime=0x71, ReadDeviceParameters=0x70, ReadArchiveByTime=0x7D, ReadArchive=0x7C)
TYPES = dict(Request=0x84, EncryptedRequest=0x85, Response=0x86, EncryptedResponse=0x87)
ERRORS = ("LocalElgasProtocolError", "CommunicationError", "WrongPasswordError", "SettingArchiveFull", "SwitchOff", "BlockedBuffer", "DataError", "CipherKeyError",
          "WrongEncryptionKeysError", "WriteError")


def C34(c):
    c.explain = ("The module-level code that builds the enumerations, frame classes, request classes and exceptions is evaluated and each named number is compared with the protocol's; "
                 "every number is looked up through its enumeration, so that two names for one number, or a look-up that changes it, is found.")

    def table(v, name, want):
        def body():
            e = get(name)
            w = fnwhere(e)
            for k, n in want.items():
                m = outcome(lambda: I.getattr_(e, k))
                if m[0] == "exc":
                    v.undecided(f"{name} has no member {k}")
                    continue
                v.same(m[1], n, w, f"{e.name}.{k}")
                g = outcome(lambda: I.call(e, [n], {}))
                if g[0] == "exc":
                    v.fail(w, f"the number {n:#x} ({k}) is not accepted: {exc_text(g[1])}", True)
                    continue
                nm = outcome(lambda: I.getattr_(g[1], "name"))
                if nm[0] == "ret" and isinstance(nm[1], str):
                    v.same(nm[1], k, w, f"name of the number {n:#x}")
        explore(body)
    for name, want in NUMBERS.items():
        c.ob(f"numbers of {name}", "each name stands for the protocol's number and each number for that name", lambda v, name=name, want=want: table(v, name, want), fix=())

    def services(v):
        def body():
            for op, n in SERVICES.items():
                for kind in ("Request", "Response"):
                    k = get(f"elgas.application.{op}{kind}")
                    s = outcome(lambda: I.getattr_(k, "service"))
                    if s[0] == "exc":
                        v.fail(fnwhere(k), f"{k.name} carries no service", True)
                    else:
                        v.same(s[1], n, fnwhere(k), f"service number of {k.name}")
            s = outcome(lambda: I.getattr_(get("elgas.application.CallRequest"), "service"))
            if s[0] == "ret":
                v.same(s[1], 0x87, fnwhere(get("elgas.application.CallRequest")), "service number of CallRequest")
        explore(body)
    c.ob("services of the operations", "each request and response carries the protocol's service number", services, fix=())

    def frames(v):
        def body():
            for k, n in TYPES.items():
                f = get(f"elgas.frames.{k}")
                t = outcome(lambda: I.getattr_(f, "TYPE"))
                if t[0] == "ret":
                    v.same(t[1], n, fnwhere(f), f"type byte of {k}")
        explore(body)
    c.ob("frame types", "each frame class has the protocol's type byte", frames, fix=())

    def errors(v):
        base = get("elgas.exceptions.ElgasError")
        for n in ERRORS:
            k = get(f"elgas.exceptions.{n}")
            if "ElgasError" not in names_of(k):
                v.fail(fnwhere(k), f"{n} is no ElgasError", True)
            elif "ValueError" in names_of(k) or "OSError" in names_of(k):
                v.fail(fnwhere(k), f"{n} is also a built-in error, which other handlers catch", True)
            else:
                v.ok()
        if "Exception" not in names_of(base):
            v.fail(fnwhere(base), "ElgasError is no Exception", True)
        for n in ERRORS:
            for o in ERRORS:
                if n != o and o in names_of(get(f"elgas.exceptions.{n}")):
                    v.fail(fnwhere(get(f"elgas.exceptions.{n}")), f"{n} is a kind of {o}", True)
    c.ob("exceptions", "every documented exception is an ElgasError and no kind of another documented one", errors, fix=())


# ------------------------------------------------------------------ C36

N = "elgas.integration."
CONFIG = {
    "ConfigurationObjectSchema": ("ConfigurationObject", {"parameter_type": ("int", True, False), "data": ("dict", True, False)}),
    "UtilitarianConfigurationObjectSchema": ("UtilitarianConfigurationObject",
                                             {"parameter_type": ("int", True, False), "data": ("dict", True, False), "series_name": ("str", True, True)}),
    "UtilitarianConfigurationSchema": ("UtilitarianConfiguration", {"objects": ("objects", None, False)}),
}
FITS = {"int": ("Integer",), "dict": ("Dict", "Mapping"), "str": ("String",)}
OTHER = ("Integer", "Float", "Decimal", "Number", "Boolean", "String", "UUID", "Url", "Email", "IP", "DateTime", "TimeDelta", "Time", "Date", "Constant", "Dict", "Mapping", "Tuple",
         "List", "Nested")


def C36(c):
    c.explain = ("The schema classes of the configuration exchange are taken from the evaluated module; their declared fields are compared with the fields of the class "
                 "they stand for, and the classes are built from arbitrary values.")

    def schema(v, name):
        s, (cls, want) = get(N + name), CONFIG[name]
        w, klass = fnwhere(s), get(N + cls)
        fields, hooks, meta = schema_members(s)
        if hooks or [a for a in meta if not a.startswith("__") and a not in ("ordered", "title", "description")]:
            return v.undecided(f"{name} has hooks or options")
        have = [f.name for f in klass.fields or ()]
        for n, (kind, req, none) in want.items():
            if n not in have:
                v.fail(fnwhere(klass), f"{cls} has no field {n}", True)
            x = fields.get(n)
            if x is None:
                v.fail(w, f"{name} has no field {n}", True)
                continue
            kw, args, cl = dict(x.attrs.get("·kw", {})), x.attrs.get("·args", ()), marsh(x)
            label = f"{name}.{n}"
            if set(kw) - {"required", "allow_none", "metadata", "strict", "load_only", "dump_only", "data_key", "attribute", "cls_or_instance", "many", "keys", "values"}:
                v.undecided(f"{label} uses {sorted(kw)}")
                continue
            if req is not None and kw.get("required", False) is not req:
                v.fail(w, f"{label} is " + ("not " if req else "") + "required", True)
            if kw.get("allow_none", False) is not none:
                v.fail(w, f"{label} " + ("refuses" if none else "accepts") + " None", True)
            for k in ("load_only", "dump_only"):
                if kw.get(k):
                    v.fail(w, f"{label} is {k}", True)
            if kw.get("data_key", n) != n or (kw.get("attribute") or n) != n:
                v.fail(w, f"{label} goes by another name", True)
            if kind == "objects":
                y = args[0] if args else kw.get("cls_or_instance")
                if cl == "Nested" and kw.get("many"):
                    n2 = y
                elif cl == "List" and isinstance(y, Inst) and marsh(y) == "Nested":
                    a2, k2 = y.attrs.get("·args", ()), y.attrs.get("·kw", {})
                    n2 = a2[0] if a2 else k2.get("nested")
                    if dict(k2).get("many") or set(k2) - {"nested", "required"}:
                        v.undecided(f"{label} nests with options")
                        continue
                elif cl in OTHER and cl not in ("List", "Nested"):
                    v.fail(w, f"{label} is a {cl} field where a list of objects is needed", True)
                    continue
                else:
                    v.undecided(f"{label} is a {cl} field of {_short(y)}")
                    continue
                if isinstance(n2, Inst):
                    n2 = n2.cls
                if isinstance(n2, FuncO) or not isinstance(n2, (ClassO, str)):
                    v.undecided(f"{label} nests {_short(n2)}")
                elif (n2.name if isinstance(n2, ClassO) else n2.rsplit(".", 1)[-1]) != "UtilitarianConfigurationObjectSchema":
                    v.fail(w, f"{label} nests {n2.name if isinstance(n2, ClassO) else n2}", True)
                else:
                    v.ok()
            elif cl in FITS[kind]:
                v.ok()
            elif cl in OTHER:
                v.fail(w, f"{label} is a {cl} field where {kind} values go", True)
            else:
                v.undecided(f"{label} is a {cl} field")
        for n in fields:
            if n not in have:
                v.fail(w, f"{name}.{n} is no field of {cls}", True)
        for n in have:
            if n not in fields:
                v.fail(w, f"{cls}.{n} is missing from {name}", True)

    def build(v):
        def body():
            a, d, s = ivar("type"), DictO({}), whole(src("s", "in", "series"))
            for cls, vals in (("ConfigurationObject", dict(parameter_type=a, data=d)), ("UtilitarianConfigurationObject", dict(parameter_type=a, data=d, series_name=s)),
                              ("UtilitarianConfigurationObject", dict(parameter_type=a, data=d)), ("UtilitarianConfiguration", dict(objects=ListO([])))):
                k = get(N + cls)
                g = outcome(lambda: I.call(k, [], dict(vals)))
                if g[0] == "exc":
                    v.fail(fnwhere(k), f"building a {cls} raises {exc_text(g[1])}", True)
                    continue
                for n, x in vals.items():
                    y = I.getattr_(g[1], n)
                    if isinstance(x, (DictO, ListO)):
                        if y is not x:
                            v.undecided(f"{cls}.{n} is another object than the one given")
                    else:
                        v.same(y, x, fnwhere(k), f"{cls}.{n}")
                if cls == "UtilitarianConfigurationObject" and "series_name" not in vals:
                    v.same(I.getattr_(g[1], "series_name"), None, fnwhere(k), "series name when none is given")
        explore(body)
    for name in CONFIG:
        c.ob(f"schema {name}", "the fields of the class it stands for: same names, kinds of value, required, None only where a value may be missing", lambda v, name=name: schema(v, name), fix=())
    c.ob("configuration classes", "built from and holding exactly the values given; the series name may be left out", build, fix=())
