"""Families of schema classes (see schemas.py for the notation)."""
import re, itertools
import schemas

INTS = {"byte": ("i8", -128, 127), "ubyte": ("u8", 0, 255), "short": ("i16", -2**15, 2**15 - 1), "ushort": ("u16", 0, 2**16 - 1),
        "int": ("i32", -2**31, 2**31 - 1), "uint": ("u32", 0, 2**32 - 1), "long": ("i64", -2**63, 2**63 - 1), "ulong": ("u64", 0, 2**64 - 1),
        "int8": ("i8", -128, 127), "uint8": ("u8", 0, 255), "int16": ("i16", -2**15, 2**15 - 1), "uint16": ("u16", 0, 2**16 - 1),
        "int32": ("i32", -2**31, 2**31 - 1), "uint32": ("u32", 0, 2**32 - 1), "int64": ("i64", -2**63, 2**63 - 1), "uint64": ("u64", 0, 2**64 - 1)}
FLOATS = {"float": "f32", "double": "f64", "float32": "f32", "float64": "f64"}
SCALARS = dict({k: v[0] for k, v in INTS.items()}, **FLOATS, bool="bool")

# schemas that must compile, in every layout
GOOD = {
    "empty": "",
    "table0": "table `Aa` { }",
    "tableN": "table `Aa` { `f1` : int ; `f2` : string ; `f3` : [ ubyte ] ; }",
    "scalars": "table `Aa` { " + " ".join("f_%s : %s ;" % (t, t) for t in SCALARS) + " }",
    "vectors": "table `Aa` { " + " ".join("v_%s : [ %s ] ;" % (t, t) for t in SCALARS) + " s : [ string ] ; ss : [ [ string ] ] ; t : [ `Aa` ] ; }",
    "required": "table `Aa` { a : int ( required ) ; b : string ( required ) ; c : [ int ] ( required ) ; d : `Aa` ( required ) ; }",
    "metadata": "table `Aa` ( `k1` ) { a : int ( `k2` : 5 , `k3` : \"text\" , required , `k4` : true , `k5` : 1.5 ) ; b : int ( ) ; }",
    "defaults": "table `Aa` { a : int = 5 ; b : int = -5 ; c : bool = true ; d : bool = false ; e : float = 1.5 ; f : double = -2.5e3 ; g : uint = 0x1F ; h : float = 0x1.8p3 ; i : float = nan ; j : double = -inf ; k : float = +infinity ; l : float = .5 ; m : double = 5. ; n : int = +7 ; o : double = 3 ; p : long = -0x10 ; }",
    "enum1": "enum `Ee` : int { `V1` , `V2` = 5 , `V3` , `V4` = -3 }",
    "enum_trailing": "enum `Ee` : ubyte { `V1` , }",
    "enum_meta": "enum `Ee` : int ( `bits` ) { `V1` } enum `Ff` : short ( `a` : 1 ) { `V1` }",
    "enum_field": "enum `Ee` : byte { `V1` , `V2` } table `Aa` { a : `Ee` ; b : `Ee` = `V2` ; c : [ `Ee` ] ; d : `Ee` ( required ) ; }",
    "union1": "table `Aa` { u : `Uu` ; } table `Bb` { } union `Uu` { `Aa` , `Bb` }",
    "union_req": "table `Aa` { u : `Uu` ( required ) ; v : `Uu` ; w : int ; } table `Bb` { } union `Uu` { `Bb` , `Aa` , }",
    "union_meta": "table `Bb` { } union `Uu` ( `x` ) { `Bb` = 3 }",
    "ns1": "namespace `n1` ; table `Aa` { a : `Aa` ; b : `n1` . `Aa` ; }",
    "ns2": "namespace `n1` . `n2` ; table `Aa` { } namespace `n3` ; table `Bb` { a : `n1` . `n2` . `Aa` ; b : [ `n1` . `n2` . `Aa` ] ; }",
    "ns3": "table `Aa` { a : `n1` . `Bb` ; } namespace `n1` ; table `Bb` { } namespace `n1` . `n2` ; table `Cc` { b : `n1` . `Bb` ; } enum `Dd` : int { `V1` } namespace `n1` ; table `Ff` { c : `n1` . `n2` . `Cc` ; d : `n1` . `n2` . `Dd` ; }",
    "ns_same": "namespace `n1` ; table `Aa` { a : `Bb` ; } table `Bb` { } namespace `n2` ; table `Aa` { a : `Bb` ; b : `n1` . `Bb` ; } table `Bb` { }",
    "ns_union": "namespace `n1` ; table `Aa` { u : `Uu` ; } union `Uu` { `Aa` } namespace `n2` ; table `Bb` { u : `n1` . `Uu` ; }",
    "root": "table `Aa` { } root_type `Aa` ;",
    "root_ns": "root_type `Aa` ; table `Aa` { } namespace `n1` ; table `Aa` { } root_type `Aa` ;",
    "include": "include \"a.fbs\" ; include \"b/c.fbs\" ; table `Aa` { }",
    "rpc": "table `Rq` { } table `Rs` { } rpc_service `Svc` { `M1` ( `Rq` ) : `Rs` ; `M2` ( `Rs` ) : `Rq` ( streaming : \"server\" ) ; `M3` ( `Rq` ) : `Rq` ( streaming : \"client\" , `other` ) ; `M4` ( `Rq` ) : `Rq` ( streaming : \"bidi\" ) ; }",
    "rpc_ns": "rpc_service `Svc` { `M1` ( `n1` . `Rq` ) : `n1` . `Rs` ( `zz` : 3 ) ; } namespace `n1` ; table `Rq` { } table `Rs` { }",
    "docs": "/// first\n/// second\ntable `Aa` { /// field\n`f1` : int ; /// union field\n`f2` : `Uu` ; } /// an enum\nenum `Ee` : int { /// variant\n`V1` , `V2` } /// a union\nunion `Uu` { /// one\n`Aa` } /// rpc\nrpc_service `Svc` { /// method\n`M1` ( `Aa` ) : `Aa` ; } /// ns\nnamespace `n1` ; /// root\ntable `Bb` { } /// r\nroot_type `Bb` ;",
    "docs_any": "///~1\ntable `Aa` { ///~2\n///~3\n`f1` : int ; } ///~4\nenum `Ee` : int { ///~5\n`V1` , `V2` } ///~6\nunion `Uu` { ///~7\n`Aa` }",
    "forward": "table `Aa` { b : `Bb` ; e : `Ee` = `V2` ; u : `Uu` ; v : [ `Cc` ] ; } union `Uu` { `Bb` , `Aa` } table `Bb` { c : `Cc` ; u : `Uu` ; } table `Cc` { a : `Aa` ; } enum `Ee` : byte { `V1` , `V2` }",
}

# schemas that must be rejected, whatever the layout
BAD = {
    "undefined": "table `Aa` { a : `Bb` ; }",
    "undefined_vec": "table `Aa` { a : [ `Bb` ] ; }",
    "undefined_ns": "namespace `n1` ; table `Aa` { } namespace `n2` ; table `Bb` { a : `Aa` ; }",
    "undefined_ns2": "namespace `n1` ; table `Aa` { b : `n2` . `Bb` ; }",
    "undefined_enum_default": "enum `Ee` : int { `V1` } table `Aa` { a : `Ee` = `V2` ; }",
    "undefined_root": "root_type `Aa` ;",
    "undefined_rpc": "table `Aa` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Bb` ; }",
    "undefined_variant": "union `Uu` { `Aa` }",
    "dup_table": "table `Aa` { } table `Aa` { }",
    "dup_table_ns": "namespace `n1` ; table `Aa` { } namespace `n2` ; table `Aa` { } namespace `n1` ; table `Aa` { }",
    "dup_table_enum": "table `Aa` { } enum `Aa` : int { `V1` }",
    "dup_enum_table": "enum `Aa` : int { `V1` } table `Aa` { }",
    "dup_enum": "enum `Aa` : int { `V1` } enum `Aa` : int { `V2` }",
    "dup_union": "table `Bb` { } union `Aa` { `Bb` } union `Aa` { `Bb` }",
    "dup_union_table": "table `Bb` { } union `Bb` { `Bb` }",
    "dup_table_forward": "table `Aa` { b : `Bb` ; } table `Aa` { } table `Bb` { }",
    "root_enum": "enum `Aa` : int { `V1` } root_type `Aa` ;",
    "rpc_enum": "enum `Aa` : int { `V1` } table `Bb` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Bb` ; }",
    "rpc_stream": "table `Aa` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Aa` ( streaming : \"other\" ) ; }",
    "rpc_stream2": "table `Aa` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Aa` ( streaming ) ; }",
    "struct": "struct `Aa` { a : int ; }",
    "struct_field": "struct `Aa` { a : int ; } table `Bb` { a : `Aa` ; }",
    "file_extension": "file_extension \"abc\" ;",
    "file_identifier": "file_identifier \"abcd\" ;",
    "attribute": "attribute \"abc\" ; attribute `abc` ;",
    "object": "{ `a` : 1 , `b` : [ 1 , 2 ] , `c` : { `d` : \"x\" } }",
    "enum_float": "enum `Ee` : float { `V1` }",
    "enum_string": "enum `Ee` : string { `V1` }",
    "enum_bool": "enum `Ee` : bool { `V1` }",
    "enum_vec": "enum `Ee` : [ int ] { `V1` }",
    "enum_custom": "enum `Dd` : int { `V1` } enum `Ee` : `Dd` { `V1` }",
    "enum_empty": "enum `Ee` : int { }",
    "enum_nobase": "enum `Ee` { `V1` }",
    "union_empty": "union `Uu` { }",
    "no_semi": "table `Aa` { a : int }",
    "no_colon": "table `Aa` { a int ; }",
    "no_type": "table `Aa` { a : ; }",
    "no_brace": "table `Aa` { a : int ;",
    "no_name": "table { }",
    "no_semi_ns": "namespace `n1` table `Aa` { }",
    "bad_vec": "table `Aa` { a : [ int ; }",
    "bad_vec2": "table `Aa` { a : int ] ; }",
    "bad_meta": "table `Aa` { a : int ( required ; }",
    "late_include": "table `Aa` { } include \"x.fbs\" ;",
    "string_default": "table `Aa` { a : string = \"x\" ; }",
    "string_default2": "table `Aa` { a : string = 1 ; }",
    "vec_default": "table `Aa` { a : [ int ] = 1 ; }",
    "table_default": "table `Aa` { a : `Aa` = 1 ; }",
    "bool_default": "table `Aa` { a : bool = 1 ; }",
    "int_default_b": "table `Aa` { a : int = true ; }",
    "int_default_f": "table `Aa` { a : int = 1.5 ; }",
    "int_default_id": "table `Aa` { a : int = `xx` ; }",
    "enum_default_int": "enum `Ee` : int { `V1` } table `Aa` { a : `Ee` = 0 ; }",
    "float_default_b": "table `Aa` { a : float = true ; }",
    "junk": "%%",
    "junk_after": "table `Aa` { } %%",
    "junk_before": "%% table `Aa` { }",
    "junk_in": "table `Aa` { %% }",
    "junk_field": "table `Aa` { a : int %% ; }",
}
for _t, (_r, _lo, _hi) in INTS.items():
    BAD["range_%s_lo" % _t] = "table `Aa` { a : %s = %d ; }" % (_t, _lo - 1)
    BAD["range_%s_hi" % _t] = "table `Aa` { a : %s = %d ; }" % (_t, _hi + 1)
    BAD["enum_range_%s_lo" % _t] = "enum `Ee` : %s { `V1` = %d }" % (_t, _lo - 1)
    BAD["enum_range_%s_hi" % _t] = "enum `Ee` : %s { `V1` = %d }" % (_t, _hi + 1)
    BAD["enum_next_%s" % _t] = "enum `Ee` : %s { `V1` = %d , `V2` }" % (_t, _hi)
HUGE = "99999999999999999999999999999999999999999999999999"
BAD["huge_int"] = "table `Aa` { a : long = %s ; }" % HUGE
BAD["huge_enum"] = "enum `Ee` : long { `V1` = -%s }" % HUGE
BAD["huge_i128"] = "enum `Ee` : ulong { `V1` = %d , `V2` }" % (2**127 - 1)
BAD["huge_i128n"] = "enum `Ee` : long { `V1` = %d , `V2` }" % (-2**127)
BAD["huge_hex"] = "table `Aa` { a : long = -0x%x ; }" % (2**127)

def truncations(src):
    t = schemas.lex(src)
    return [t[:i] for i in range(len(t))]
def deletions(src):
    t = schemas.lex(src)
    return [t[:i] + t[i + 1:] for i in range(len(t))]
def repeats(src):
    t = schemas.lex(src)
    return [t[:i] + [t[i]] + t[i:] for i in range(len(t))]
def junks(src):
    t = schemas.lex(src)
    return [t[:i] + [("junk", "%%")] + t[i:] for i in range(len(t) + 1)]
def swaps(src):
    t = schemas.lex(src)
    return [t[:i] + [t[i + 1], t[i]] + t[i + 2:] for i in range(len(t) - 1) if t[i] != t[i + 1]]
def replaced(src):
    """each token replaced by every kind of token"""
    t = schemas.lex(src)
    alt = [("word", "int"), ("num", "5"), ("num", "1.5"), ("p", "["), ("p", "{"), ("p", ")"), ("p", "."), ("p", ","), ("str", '"s"'), ("word", "true"), ("word", "nan"), ("abs", "`Zz`"), ("word", "table")]
    out = []
    for i in range(len(t)):
        for a in alt:
            if a != t[i]: out.append(t[:i] + [a] + t[i + 1:])
    return out

MUTATED = ["enum_field", "union_req", "ns3", "rpc", "metadata", "defaults", "docs", "include", "root_ns"]
REPLACED = ["enum_field", "union_req", "ns2", "rpc", "metadata", "include", "root"]

# names and declarations that cannot be generated code
for _n, _s in {
    "dup_field": "table `Aa` { `xx` : int ; `yy` : int ; `xx` : string ; }",
    "dup_field_case": "table `Aa` { fooBar : int ; foo_bar : int ; }",
    "dup_union_type_field": "table `Bb` { } union `Uu` { `Bb` } table `Aa` { xx_type : int ; xx : `Uu` ; }",
    "dup_union_type_field2": "table `Bb` { } union `Uu` { `Bb` } table `Aa` { xx : `Uu` ; xx_type : [ int ] ; }",
    "dup_enum_variant": "enum `Ee` : int { `V1` , `V2` , `V1` }",
    "dup_enum_value": "enum `Ee` : int { `V1` = 1 , `V2` = 1 }",
    "dup_enum_value_next": "enum `Ee` : int { `V1` = 1 , `V2` = 0 , `V3` }",
    "dup_union_variant": "table `Bb` { } union `Uu` { `Bb` , `Bb` }",
    "union_none": "table None { } union `Uu` { None }",
    "union_value_0": "table `Bb` { } union `Uu` { `Bb` = 0 }",
    "union_value_dup": "table `Bb` { } table `Cc` { } union `Uu` { `Bb` = 4 , `Cc` = 4 }",
    "union_value_dup_next": "table `Bb` { } table `Cc` { } table `Dd` { } union `Uu` { `Bb` = 2 , `Cc` = 1 , `Dd` }",
    "union_value_neg": "table `Bb` { } union `Uu` { `Bb` = -1 }",
    "union_value_256": "table `Bb` { } union `Uu` { `Bb` = 256 }",
    "union_value_past": "table `Bb` { } table `Cc` { } union `Uu` { `Bb` = 255 , `Cc` }",
    "union_of_enum": "enum `Bb` : int { `V1` } union `Uu` { `Bb` }",
    "union_of_union": "table `Bb` { } union `Uu` { `Bb` } union `Vv` { `Uu` }",
    "union_of_itself": "union `Uu` { `Uu` }",
    "vec_of_unions": "table `Bb` { } union `Uu` { `Bb` } table `Aa` { u : [ `Uu` ] ; }",
    "vec_of_vec_of_unions": "table `Bb` { } union `Uu` { `Bb` } table `Aa` { u : [ [ `Uu` ] ] ; }",
    "union_256": " ".join("table T%d { }" % i for i in range(256)) + " union `Uu` { " + " , ".join("T%d" % i for i in range(256)) + " }",
}.items(): BAD[_n] = _s
GOOD["union_values"] = "table `Bb` { } table `Cc` { } table `Dd` { u : `Uu` ; } union `Uu` { `Bb` = 3 , `Cc` = 1 , `Dd` = 0xff , }"
GOOD["union_255"] = " ".join("table T%d { }" % i for i in range(255)) + " union `Uu` { " + " , ".join("T%d" % i for i in range(255)) + " }"
# identifiers that begin like a literal or a keyword
PREFIXED = ["trueish", "falsey", "true_", "nano", "nanx", "inform", "infinite", "infinityx", "intern", "integer", "int7", "uintx", "shorty", "ushorts", "longitude", "ulongs", "doubled", "floaty", "float128", "bytes", "ubytes", "stringy", "boolean", "tables", "table_", "structure", "enumeration", "unionised", "namespaces", "includes", "root_types", "rpc_services", "attributes", "file_extensions", "requiredx", "int8x", "uint64_", "float32x", "e5", "x0x1", "_", "_1", "T", "A1b2"]
for _w in PREFIXED:
    if not _w.startswith("_"):
        GOOD["prefix_" + _w] = "namespace %s ; table %s { %s : int ; k : %s ; v : [ %s ] ; b : bool = true ; c : bool = false ; d : float = nan ; g : float = inf ; } enum E_%s : int { %s , `Zz` } table `Uses` { ee : E_%s = %s ; b : bool = true ; c : bool = false ; d : double = nan ; g : double = -inf ; } root_type %s ; rpc_service S_%s { %s ( %s ) : %s ; }" % ((_w,) * 14)

# literals, in every position in which they may be
STRINGS = ["", "a", " ", "a.fbs", "\\\\", "\\\"", "\\\\\\\"", "x\\\\y", "\\\\\\\\", "a\\\"b\\\"c", "// no comment", "/// no documentation", "{ ; }", "' ` #", "caf\u00e9 \u4e2d", "true", "5"]
NUMBERS = ["0", "-0", "+0", "7", "-7", "+7", "007", "0x0", "0X0", "0x7f", "0X7F", "-0x1", "+0X1", "-0X0A", "0x5B"]
REALS = ["1.5", "-1.5", "+1.5", ".5", "-.5", "+.5", "5.", "-5.", "1e3", "1E3", "1e+3", "1E-3", "1.e3", ".5e3", "1.5E+3", "0x1.8p3", "0X1.8P3", "0x1.8P+3", "-0x1.8p-3", "+0x.8p1", "0x1.p1", "0x1p3", "0X1P-3", "0xa.Bp0", "nan", "inf", "infinity", "0x1.8", "-0X1.8", "0x.8", "+nan", "-nan", "+inf", "-inf", "+infinity", "-infinity"]
for _i, _w in enumerate(STRINGS):
    GOOD["str_%d" % _i] = ("include \"%s\" ; table `Aa` ( `k1` : \"%s\" ) { a : int ( `k2` : \"%s\" , required ) ; b : int ( `k3` : \"%s\" ) ; } enum `Ee` : int ( `k1` : \"%s\" ) { `V1` } table `Bb` { }" % ((_w,) * 5)).replace("include \"\" ; ", "")
for _i, _w in enumerate(NUMBERS):
    GOOD["num_%d" % _i] = "table `Aa` ( `k1` : %s ) { a : int = %s ; b : long = %s ( `k2` : %s ) ; c : float = %s ; d : double = %s ; e : byte = %s ; } enum `Ee` : int { `V1` = %s , `V2` }" % ((_w,) * 8)
for _i, _w in enumerate(REALS):
    GOOD["real_%d" % _i] = "table `Aa` ( `k1` : %s ) { a : float = %s ; b : double = %s ( `k2` : %s ) ; } table `Bb` { }" % ((_w,) * 4)
    BAD["real_int_%d" % _i] = "table `Aa` { a : int = %s ; }" % _w
    BAD["real_bool_%d" % _i] = "table `Aa` { a : bool = %s ; }" % _w
    BAD["real_enum_%d" % _i] = "enum `Ee` : int { `V1` = %s }" % _w
for _i, _w in enumerate(NUMBERS):
    BAD["num_bool_%d" % _i] = "table `Aa` { a : bool = %s ; }" % _w
    BAD["num_enum_%d" % _i] = "enum `Ee` : int { `V1` = 1 , `V2` = 7 , `V3` = 127 , `V4` = 0 , `V5` = -1 , `V6` = -7 , `V7` = -10 , `V8` = 91 , `Vx` = %s }" % _w
for _i, _w in enumerate(["0x", "0X", "1a", "0x1g", "--1", "+-1", "1 2", "1_000", "0b1", "'1'", "1u8", "1,5", "", "=", "1 1.5", "1.5.5", "0x1.8p", "1e", "1e+", ".", "-", "-.", "truee", "True", "TRUE", "NaN", "Inf", "-true"]):
    BAD["lit_%d" % _i] = "table `Aa` { a : double = %s ; }" % _w
    BAD["lit_int_%d" % _i] = "table `Aa` { a : int = %s ; }" % _w
    BAD["lit_enum_%d" % _i] = "enum `Ee` : int { `V1` = %s }" % _w
# streaming modes
for _i, _w in enumerate(["", "s", "serv", "servers", "server ", " server", "Server", "SERVER", "clien", "clients", "Client", "bid", "bidirectional", "Bidi", "client,server", "server_", "\\\"server\\\"", "unary", "bidi bidi"]):
    BAD["rpc_mode_%d" % _i] = "table `Aa` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Aa` ( streaming : \"%s\" ) ; }" % _w
for _i, _w in enumerate(["5", "true", "1.5"]):
    BAD["rpc_mode_kind_%d" % _i] = "table `Aa` { } rpc_service `Ss` { `Mm` ( `Aa` ) : `Aa` ( streaming : %s ) ; }" % _w

def inserted(src):
    """a token of every kind inserted anywhere"""
    t = schemas.lex(src)
    out = []
    for i in range(len(t) + 1):
        for a in [("p", c) for c in ";{}()[]:,=."] + [("word", "int"), ("num", "5"), ("str", '"s"'), ("word", "true"), ("abs", "`Zz`")]:
            if a[1] == "." and ((i and t[i - 1][0] == "num") or (i < len(t) and t[i][0] == "num")): continue  # part of a number
            out.append(t[:i] + [a] + t[i:])
    return out
INSERTED = ["enum_field", "union_req", "ns2", "rpc", "metadata", "include", "root", "table0", "empty"]

# a schema of many declarations of every kind: what is wrong is wrong after and before it
RICH = ("root_type `Qa` ; root_type `Qb` ; table `Qa` { `x1` : int ; `x2` : string ( required ) ; `x3` : [ `Qb` ] ; `x4` : `Qe` = `Q2` ; `x5` : `Qu` ; } table `Qb` { `x1` : `Qf` ; `x2` : `Qa` ; `x3` : [ `Qf` ] ; } "
    "enum `Qe` : byte { `Q1` , `Q2` = 7 } enum `Qf` : ulong { `Q1` , `Q3` } union `Qu` { `Qa` , `Qb` } union `Qv` { `Qb` } table `Qc` { `x1` : `Qv` ( required ) ; } "
    "rpc_service `Qs` { `Qm` ( `Qa` ) : `Qb` ; `Qn` ( `Qc` ) : `Qc` ; } rpc_service `Qt` { `Qm` ( `Qb` ) : `Qa` ; } root_type `Qc` ; ")
RICH_NS = "namespace `qq` ; " + RICH + "namespace `qq` . `qr` ; table `Qa` { `x1` : `qq` . `Qa` ; `x2` : `Qb` ; } table `Qb` { } "
def in_context():
    out = []
    for n, b in BAD.items():
        out.append((n + ", after others", RICH + b)); out.append((n + ", before others", b + " " + RICH_NS))
    return out
RENAMED = {
    "types": RICH,
    "namespaces": "table `Aa` { a : `nn` . `Bb` ; } enum `Ee` : int { `V1` } namespace `nn` ; table `Bb` { c : `nn` . `mm` . `Cc` ; e : `Ee` ; } enum `Ee` : int { `V2` } namespace `nn` . `mm` ; table `Cc` { b : `nn` . `Bb` ; u : `Uu` ; } union `Uu` { `Cc` , `Dd` } table `Dd` { e : `nn` . `Ee` = `V2` ; } root_type `Cc` ; rpc_service `Ss` { `Mm` ( `Cc` ) : `nn` . `Bb` ; }"}
def renamed(src):
    """each identifier replaced by every other identifier of the schema"""
    t = schemas.lex(src)
    names = sorted({x for x in t if x[0] == "abs"})
    return [t[:i] + [a] + t[i + 1:] for i in range(len(t)) if t[i][0] == "abs" for a in names if a != t[i]]
