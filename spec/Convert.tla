------------------------------- MODULE Convert -------------------------------
(* Numbers and plain values on their way through the crate's conversions: a     *)
(* datum has a form (a Rust type, Number, Value, or text) and a value; each      *)
(* step converts it.  Whatever the way, what arrives is the datum that set out,  *)
(* or the conversion is refused for a reason given here.                         *)
(* Forms: the names of Rust types; "number"; "value"; "shown" (Display of a      *)
(* Number); "yaml" (to_string); "gone" (None or an error).                       *)
EXTENDS Scalar
Narrow == {"i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"}
Wide == {"i128", "u128"}
Floats == {"f32", "f64"}
RangeOf(ty) == CASE ty = "isize" -> "i64" [] ty = "usize" -> "u64" [] OTHER -> ty
At(f, v) == [f |-> f, v |-> v]
None == At("gone", [k |-> "none"])
Fails == At("gone", [k |-> "err"])
IsNum(v) == v.k \in {"int", "float"}
AsFloat(v) == IF v.k = "int" THEN VFloat(v.s) ELSE v
\* Floats that an f32 holds are few and named; integers of 7 digits are.
F32Texts == {"0.0", "-0.0", "1.5", "-2.0", "1.0", "nan", "inf", "-inf", "16777216.0"}
HasF32(v) == IF v.k = "int" THEN Len(IntLit(v.s).val.mag) <= 7 ELSE IF v.k = "float" THEN v.t \in F32Texts ELSE TRUE

\* A value read as type ty, from a Number, a Value or its own text.
Read(v, ty) ==
    CASE ty \in Narrow \cup Wide -> IF v.k = "int" /\ InRange(IntLit(v.s).val, RangeOf(ty)) THEN At(ty, v) ELSE Fails
      [] ty \in Floats -> IF IsNum(v) THEN At(ty, AsFloat(v)) ELSE Fails
      [] ty = "number" -> IF IsNum(v) THEN At(ty, v) ELSE Fails
      [] ty = "value"  -> At(ty, v)
      [] ty = "bool"   -> IF v.k = "bool" THEN At(ty, v) ELSE Fails
      [] ty = "string" -> IF v.k = "str" THEN At(ty, v) ELSE Fails
Types == Narrow \cup Wide \cup Floats \cup {"number", "value", "bool", "string"}
As(v, what) ==
    CASE what = "as_i64" -> IF v.k = "int" /\ InRange(IntLit(v.s).val, "i64") THEN At("i64", v) ELSE None
      [] what = "as_u64" -> IF v.k = "int" /\ InRange(IntLit(v.s).val, "u64") THEN At("u64", v) ELSE None
      [] what = "as_f64" -> IF IsNum(v) THEN At("f64", AsFloat(v)) ELSE None
      [] what = "as_bool" -> IF v.k = "bool" THEN At("bool", v) ELSE None
      [] what = "as_str" -> IF v.k = "str" THEN At("string", v) ELSE None
Nums == {"as_i64", "as_u64", "as_f64"}

SeqV(xs) == [k |-> "seq", e |-> xs]
Key == VStr("k")
Flat(v) == v.k \notin {"seq", "map"}
\* The conversions that exist for x, each with its result: a set of <<name, type, result>>.
\* A plain text is also readable as a string, whatever it means; that is left to the scalar rules.
Steps(x) ==
    LET f == x.f
        v == x.v
        reads(c, tys) == {<<c, ty, Read(v, ty)>> : ty \in {t \in tys : t = "f32" => HasF32(v)}}
        out == {<<"to_value", "", At("value", v)>>, <<"yaml", "", At("yaml", v)>>}
    IN  CASE f \in Narrow \cup Floats ->
               {<<"number", "", At("number", v)>>, <<"value", "", At("value", v)>>, <<"vec", "", At("value", SeqV(<<v, v>>))>>} \cup out
          [] f \in Wide -> (IF InRange(IntLit(v.s).val, "u64") \/ InRange(IntLit(v.s).val, "i64") THEN out ELSE {})
          [] f = "bool" -> {<<"value", "", At("value", v)>>, <<"vec", "", At("value", SeqV(<<v, v>>))>>} \cup out
          [] f = "string" -> {<<c, "", At("value", v)>> : c \in {"value", "value-str", "value-cow"}} \cup {<<"vec", "", At("value", SeqV(<<v, v>>))>>} \cup out
          [] f = "number" -> {<<c, "", As(v, c)>> : c \in Nums} \cup reads("read", Types) \cup reads("read-ref", Types) \cup out
                             \cup {<<"shown", "", At("shown", v)>>, <<"value", "", At("value", v)>>, <<"same", "", At("number", v)>>}
          [] f = "value" -> IF Flat(v)
                            THEN {<<c, "", As(v, c)>> : c \in Nums \cup {"as_bool", "as_str"}} \cup reads("read", Types) \cup reads("read-ref", Types) \cup out
                                 \cup {<<"vec", "", At("value", SeqV(<<v, v>>))>>, <<"slice", "", At("value", SeqV(<<v>>))>>, <<"collect", "", At("value", SeqV(<<v, v>>))>>,
                                       <<"mapping", "", At("value", [k |-> "map", e |-> <<<<Key, v>>>>])>>}
                            ELSE out \cup {<<"elem", "", At("value", IF v.k = "seq" THEN v.e[Len(v.e)] ELSE v.e[1][2])>>, <<"read", "value", x>>, <<"read-ref", "value", x>>}
          [] f = "shown" -> reads("text", Types \ {"string"}) \cup {<<"parse", "", At("number", v)>>}
          [] f = "yaml"  -> reads("text", IF ~Flat(v) THEN {"value"} ELSE IF v.k = "str" THEN Types ELSE Types \ {"string"})
          [] f = "gone"  -> {}

\* What a Number or Value says about itself.
About(x) ==
    LET v == x.v IN
    [c \in Nums |-> As(v, c).v] @@
    [is_i64 |-> As(v, "as_i64").f # "gone", is_u64 |-> As(v, "as_u64").f # "gone", is_f64 |-> v.k = "float"]
Tells(x) == x.f \in {"number", "value"} /\ Flat(x.v)
=============================================================================
