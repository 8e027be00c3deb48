------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* Document attributes: a function from (lower-case) names to              *)
(* [v |-> value, ctx |-> who may change it].                               *)
(***************************************************************************)
EXTENDS Text

ValueV(t) == [k |-> "value", v |-> t]
SetV      == [k |-> "set", v |-> <<>>]
UnsetV    == [k |-> "unset", v |-> <<>>]

Av(v, ctx) == [v |-> v, ctx |-> ctx]
BuiltInAttrs ==
  (C("empty") :> Av(ValueV(<<>>), "api")) @@
  (C("sp") :> Av(ValueV(<<SP>>), "api")) @@
  (C("deg") :> Av(ValueV(C("&#176;")), "api")) @@
  (C("plus") :> Av(ValueV(C("&#43;")), "api")) @@
  (C("toc") :> Av(UnsetV, "header")) @@
  (C("sectids") :> Av(SetV, "any")) @@
  (C("sectnums") :> Av(UnsetV, "any")) @@
  (C("sectnumlevels") :> Av(ValueV(C("3")), "header")) @@
  (C("idprefix") :> Av(ValueV(<<"_">>), "any")) @@
  (C("idseparator") :> Av(ValueV(<<"_">>), "any")) @@
  (C("example-caption") :> Av(SetV, "any")) @@
  (C("iconsdir") :> Av(SetV, "any"))

DefaultValues ==
  (C("example-caption") :> C("Example")) @@
  (C("iconsdir") :> C("./images/icons")) @@
  (C("sectnums") :> C("all")) @@
  (C("toc") :> C("auto"))
DefaultDom == DOMAIN DefaultValues

HasAttr(A, n) == n \in DOMAIN A
IsSet(A, n)   == n \in DOMAIN A /\ A[n].v.k # "unset"
\* The interpreted value of attribute n.
AttrV(A, n) ==
  IF n \notin DOMAIN A THEN UnsetV
  ELSE IF A[n].v.k = "set" /\ n \in DefaultDom THEN ValueV(DefaultValues[n])
  ELSE A[n].v
\* <<text>> if the attribute has a value, <<>> otherwise
AttrStr(A, n) == LET v == AttrV(A, n) IN IF v.k = "value" THEN <<v.v>> ELSE <<>>

\* What a reference to an existing attribute is replaced with.
RefText(A, n) == LET v == AttrV(A, n) IN IF v.k = "value" THEN v.v ELSE <<>>

Put(A, n, v, ctx) == (n :> Av(v, ctx)) @@ A

HardbreaksAlias == C("hardbreaks")
HardbreaksOption == C("hardbreaks-option")
Remap(n) == LET l == Lower(n) IN IF l = HardbreaksAlias THEN HardbreaksOption ELSE l

\* The API: initial attribute map with one (name, value, ctx) setting applied.
ApiSet(A, n, v, ctx) == Put(A, Lower(n), v, ctx)

\* Permissions (parser.rs).
HeaderMaySet(A, n) == n \notin DOMAIN A \/ A[n].ctx \notin {"api", "body"}
BodyMaySet(A, n)   == n \notin DOMAIN A \/ A[n].ctx \in {"any", "body"}
\* An entry keeps the context under which the attribute may be changed later.
KeptCtx(A, n) == IF n \in DOMAIN A THEN A[n].ctx ELSE "any"
HeaderSet(A, n, v) ==
  LET w == IF v.k = "set" /\ n \in DefaultDom THEN ValueV(DefaultValues[n]) ELSE v
  IN Put(A, n, w, KeptCtx(A, n))
BodySet(A, n, v) == Put(A, n, v, KeptCtx(A, n))
=============================================================================
