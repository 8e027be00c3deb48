-------------------------------- MODULE Asg ---------------------------------
(***************************************************************************)
(* The abstract semantic graph of a document: what may stand where, and    *)
(* which values are implied.                                               *)
(*                                                                         *)
(* A value is [t |-> "null"], [t |-> "bool"], [t |-> "frac"] (a number     *)
(* that is not an integer), [t |-> "int", n], [t |-> "str", s],            *)
(* [t |-> "arr", v] or [t |-> "obj", k, v], with k the keys as texts and   *)
(* v the values in the same order.                                         *)
(***************************************************************************)
EXTENDS Text

EmptyArr == [t |-> "arr", v |-> <<>>]
EmptyObj == [t |-> "obj", k |-> <<>>, v |-> <<>>]
HasKey(o, key) == \E x \in DOMAIN o.k: o.k[x] = C(key)
Get(o, key) == o.v[CHOOSE x \in DOMAIN o.k: o.k[x] = C(key)]
NameIs(o, S) == HasKey(o, "name") /\ Get(o, "name").t = "str" /\ \E x \in S: Get(o, "name").s = C(x)

(* types of values: <<"str">>, <<"strnull">>, <<"int", least>>,            *)
(* <<"enum", S>>, <<"list", type, least>>, <<"map", which, type>>,         *)
(* <<"pair", type>>, <<"node", kind>>                                      *)
TStr == <<"str">>
One(s) == <<"enum", {s}>>
Node(kind) == <<"node", kind>>
TLoc == <<"pair", Node("boundary")>>
TInlines == <<"list", Node("inline"), 0>>
TSectionBody == <<"list", Node("sectionItem"), 0>>
TBlocks == <<"list", Node("block"), 0>>
TStrings == <<"list", TStr, 0>>

(* a shape: what must be there, what may be there, and what is implied *)
Shape(must, may, implied) == [must |-> must, may |-> may, implied |-> implied]
BlockMust == {"name", "type"}
BlockMay(names) ==
  [name |-> <<"enum", names>>, type |-> One("block"), id |-> TStr, title |-> TInlines, reftext |-> TInlines,
   metadata |-> Node("metadata"), location |-> TLoc]
ImpliedBlocks == <<<<"blocks", EmptyArr>>>>
Variant(names) == [variant |-> <<"enum", names>>]

ListNames == {"list"}
LeafNames == {"listing", "literal", "paragraph", "pass", "stem", "verse"}
ParentNames == {"admonition", "example", "sidebar", "open", "quote"}
MacroNames == {"audio", "video", "image", "toc"}
LiteralNames == {"text", "charref", "raw"}

BlockKind(o) ==
  IF NameIs(o, {"list"}) THEN "list" ELSE IF NameIs(o, {"dlist"}) THEN "dlist"
  ELSE IF NameIs(o, {"heading"}) THEN "heading" ELSE IF NameIs(o, {"break"}) THEN "break"
  ELSE IF NameIs(o, MacroNames) THEN "macro" ELSE IF NameIs(o, LeafNames) THEN "leaf"
  ELSE IF NameIs(o, ParentNames) THEN "parent" ELSE "none"
InlineKind(o) ==
  IF NameIs(o, {"span"}) THEN "span" ELSE IF NameIs(o, {"ref"}) THEN "ref"
  ELSE IF NameIs(o, LiteralNames) THEN "literal" ELSE "none"
KindOf(kind, o) ==
  CASE kind = "sectionItem" -> IF NameIs(o, {"section"}) THEN "section" ELSE BlockKind(o)
    [] kind = "block" -> BlockKind(o)
    [] kind = "inline" -> InlineKind(o)
    [] OTHER -> kind

Delimited(o) == HasKey(o, "form") /\ Get(o, "form").t = "str" /\ Get(o, "form").s = C("delimited")
ShapeOf(kind, o) ==
  CASE kind = "document" ->
        Shape({"name", "type"} \cup (IF HasKey(o, "header") THEN {"attributes"} ELSE {}),
              [name |-> One("document"), type |-> One("block"), attributes |-> <<"map", "docattr", <<"strnull">>>>,
               header |-> Node("header"), blocks |-> TSectionBody, location |-> TLoc], ImpliedBlocks)
    [] kind = "header" -> Shape({}, [title |-> TInlines, authors |-> <<"list", Node("author"), 1>>, location |-> TLoc], <<>>)
    [] kind = "author" -> Shape({}, [fullname |-> TStr, initials |-> TStr, firstname |-> TStr, middlename |-> TStr,
                                     lastname |-> TStr, address |-> TStr], <<>>)
    [] kind = "section" -> Shape(BlockMust \cup {"title", "level"},
                                 [level |-> <<"int", 0>>, blocks |-> TSectionBody] @@ BlockMay({"section"}), ImpliedBlocks)
    [] kind = "list" -> Shape(BlockMust \cup {"marker", "variant", "items"},
                              [marker |-> TStr, items |-> <<"list", Node("listItem"), 1>>]
                              @@ Variant({"callout", "ordered", "unordered"}) @@ BlockMay({"list"}), <<>>)
    [] kind = "dlist" -> Shape(BlockMust \cup {"marker", "items"},
                               [marker |-> TStr, items |-> <<"list", Node("dlistItem"), 1>>] @@ BlockMay({"dlist"}), <<>>)
    [] kind = "listItem" -> Shape(BlockMust \cup {"marker", "principal"},
                                  [marker |-> TStr, principal |-> TInlines, blocks |-> TBlocks] @@ BlockMay({"listItem"}), ImpliedBlocks)
    [] kind = "dlistItem" -> Shape(BlockMust \cup {"marker", "terms"},
                                   [marker |-> TStr, principal |-> TInlines, blocks |-> TBlocks, terms |-> <<"list", TInlines, 1>>]
                                   @@ BlockMay({"dlistItem"}), ImpliedBlocks)
    [] kind = "heading" -> Shape(BlockMust \cup {"title", "level"}, [level |-> <<"int", 0>>] @@ BlockMay({"heading"}), <<>>)
    [] kind = "break" -> Shape(BlockMust \cup {"variant"}, Variant({"page", "thematic"}) @@ BlockMay({"break"}), <<>>)
    [] kind = "macro" -> Shape(BlockMust \cup {"form"}, [form |-> One("macro"), target |-> TStr] @@ BlockMay(MacroNames), <<>>)
    [] kind = "leaf" ->
        LET base == [form |-> <<"enum", {"delimited", "indented", "paragraph"}>>, inlines |-> TInlines] @@ BlockMay(LeafNames)
        IN IF Delimited(o) THEN Shape(BlockMust \cup {"delimiter"}, [delimiter |-> TStr] @@ base, <<<<"inlines", EmptyArr>>>>)
           ELSE Shape(BlockMust, base, <<<<"inlines", EmptyArr>>>>)
    [] kind = "parent" ->
        LET base == [form |-> One("delimited"), delimiter |-> TStr, blocks |-> TBlocks] @@ BlockMay(ParentNames)
            must == BlockMust \cup {"form", "delimiter"}
        IN IF NameIs(o, {"admonition"})
           THEN Shape(must \cup {"variant"}, Variant({"caution", "important", "note", "tip", "warning"}) @@ base, ImpliedBlocks)
           ELSE Shape(must, base, ImpliedBlocks)
    [] kind = "metadata" ->
        Shape({}, [attributes |-> <<"map", "blockattr", TStr>>, options |-> TStrings, roles |-> TStrings, location |-> TLoc],
              << <<"attributes", EmptyObj>>, <<"options", EmptyArr>>, <<"roles", EmptyArr>> >>)
    [] kind = "span" -> Shape({"name", "type", "inlines", "variant", "form"},
                              [name |-> One("span"), type |-> One("inline"), inlines |-> TInlines, location |-> TLoc,
                               variant |-> <<"enum", {"strong", "emphasis", "code", "mark"}>>,
                               form |-> <<"enum", {"constrained", "unconstrained"}>>], <<>>)
    [] kind = "ref" -> Shape({"name", "type", "inlines", "variant", "target"},
                             [name |-> One("ref"), type |-> One("inline"), inlines |-> TInlines, location |-> TLoc,
                              variant |-> <<"enum", {"link", "xref"}>>, target |-> TStr], <<>>)
    [] kind = "literal" -> Shape({"name", "type", "value"},
                                 [name |-> <<"enum", LiteralNames>>, type |-> One("string"), value |-> TStr, location |-> TLoc], <<>>)
    [] kind = "boundary" -> Shape({"line", "col"}, [line |-> <<"int", 1>>, col |-> <<"int", 0>>, file |-> <<"list", TStr, 1>>], <<>>)

WordMay == AsciiAlnum \cup {"_"}
KeyOk(which, key) ==
  IF which = "docattr" THEN key # <<>> /\ key[1] \in WordMay /\ AllIn(key, WordMay \cup {"-"})
  ELSE \/ key # <<>> /\ key[1] \in AsciiAlpha \cup {"_"} /\ AllIn(key, WordMay \cup {"-"})
       \/ Len(key) > 1 /\ key[1] = "$" /\ key[2] \in Digits \ {"0"} /\ AllIn(From(key, 2), Digits)

(* what v itself, without its members, says to the type *)
Fits(type, v) ==
  CASE type[1] = "str" -> v.t = "str"
    [] type[1] = "strnull" -> v.t \in {"str", "null"}
    [] type[1] = "int" -> v.t = "int" /\ v.n >= type[2]
    [] type[1] = "enum" -> v.t = "str" /\ \E x \in type[2]: v.s = C(x)
    [] type[1] = "list" -> v.t = "arr" /\ Len(v.v) >= type[3]
    [] type[1] = "pair" -> v.t = "arr" /\ Len(v.v) = 2
    [] type[1] = "map" -> v.t = "obj" /\ \A x \in DOMAIN v.k: KeyOk(type[2], v.k[x])
    [] type[1] = "node" ->
        /\ v.t = "obj"
        /\ LET kind == KindOf(type[2], v)
           IN /\ kind # "none"
              /\ LET s == ShapeOf(kind, v)
                 IN /\ \A x \in s.must: HasKey(v, x)
                    /\ \A x \in DOMAIN v.k: \E y \in DOMAIN s.may: v.k[x] = C(y)

(* v with what is implied *)
Filled(type, v) ==
  IF type[1] # "node" THEN v
  ELSE FoldLeft(LAMBDA o, d: IF HasKey(o, d[1]) THEN o
                             ELSE [o EXCEPT !.k = Append(@, C(d[1])), !.v = Append(@, d[2])],
                v, ShapeOf(KindOf(type[2], v), v).implied)

(* the types of the members, in order *)
MemberTypes(type, v) ==
  CASE type[1] \in {"list", "pair"} -> [x \in DOMAIN v.v |-> type[2]]
    [] type[1] = "map" -> [x \in DOMAIN v.v |-> type[3]]
    [] type[1] = "node" -> LET may == ShapeOf(KindOf(type[2], v), v).may
                           IN [x \in DOMAIN v.k |-> may[CHOOSE y \in DOMAIN may: C(y) = v.k[x]]]
    [] OTHER -> <<>>

RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v ELSE At(v.v[path[1]], Tail(path))
RECURSIVE Put(_, _, _)
Put(v, path, x) == IF path = <<>> THEN x ELSE [v EXCEPT !.v[path[1]] = Put(@, Tail(path), x)]

(* the same value, whatever the order of members *)
RECURSIVE Same(_, _)
Same(a, b) ==
  a.t = b.t /\
  CASE a.t = "obj" -> /\ Len(a.k) = Len(b.k)
                      /\ \A x \in DOMAIN a.k: \E y \in DOMAIN b.k: a.k[x] = b.k[y] /\ Same(a.v[x], b.v[y])
    [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A x \in DOMAIN a.v: Same(a.v[x], b.v[x])
    [] OTHER -> a = b
(* b is a with members added: those of the table of implied values *)
Implied == {<<C("blocks"), EmptyArr>>, <<C("inlines"), EmptyArr>>, <<C("attributes"), EmptyObj>>,
            <<C("options"), EmptyArr>>, <<C("roles"), EmptyArr>>}
RECURSIVE Extends(_, _)
Extends(b, a) ==
  a.t = b.t /\
  CASE a.t = "obj" ->
        /\ \A x \in DOMAIN a.k: \E y \in DOMAIN b.k: a.k[x] = b.k[y] /\ Extends(b.v[y], a.v[x])
        /\ \A y \in DOMAIN b.k: (\E x \in DOMAIN a.k: a.k[x] = b.k[y]) \/ \E d \in Implied: d[1] = b.k[y] /\ d[2] = b.v[y]
    [] a.t = "arr" -> Len(a.v) = Len(b.v) /\ \A x \in DOMAIN a.v: Extends(b.v[x], a.v[x])
    [] OTHER -> a = b
=============================================================================
