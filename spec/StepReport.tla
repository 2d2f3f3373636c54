------------------------------ MODULE StepReport ------------------------------
(***************************************************************************)
(* What handling an instance of each kind reports and leads to             *)
(* (step/bridge.go, step/template.go, step/job.go).  An instance is        *)
(* [name, type, args (bytes), refs (the args as strings)].                 *)
(***************************************************************************)
EXTENDS StepText, StepParse

Silent == {"VERTEX_LOOP", "FACE", "CLOSED_SHELL", "DIRECTION", "AXIS_2_PLACEMENT_3D", "PRODUCT_DEFINITION",
           "PRODUCT_DEFINITION_CONTEXT", "PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_SHAPE"}
Reporting == {"B_SPLINE_SURFACE_WITH_KNOTS", "ADVANCED_FACE", "SPHERICAL_SURFACE", "TOROIDAL_SURFACE"}
\* the handler chosen for a root: its own keyword, "skip" for all others
RootHandler(type) == IF type \in Silent \cup Reporting THEN type ELSE "skip"

\* printed forms
RECURSIVE Join(_, _)
Join(parts, sep) == IF parts = <<>> THEN <<>>
                    ELSE IF Len(parts) = 1 THEN parts[1]
                    ELSE parts[1] \o sep \o Join(Tail(parts), sep)
Show(items) == <<91>> \o Join(items, <<32>>) \o <<93>>                 \* [a b c]
ShowMatrix(rows) == Show([i \in 1..Len(rows) |-> Show(rows[i])])
True == <<116,114,117,101>>   False == <<102,97,108,115,101>>
ShowLogical(a) == IF a = <<46,84,46>> THEN True ELSE False

\* the surface type a face names ("" when undefined)
TypeAt(table, key) == IF key \in DOMAIN table THEN table[key].type ELSE ""

BSpline(a) ==
  { <<"name", a[1]>>, <<"uDegree", a[2]>>, <<"vDegree", a[3]>>, <<"controlPointsList", ShowMatrix(MatrixOf(a[4]))>>,
    <<"surfaceForm", a[5]>>, <<"uClosed", ShowLogical(a[6])>>, <<"vClosed", ShowLogical(a[7])>>,
    <<"selfIntersect", ShowLogical(a[8])>>, <<"uMultiplicities", Show(ListOf(a[9]))>>, <<"vMultiplicities", Show(ListOf(a[10]))>>,
    <<"uKnots", Show(ListOf(a[11]))>>, <<"vKnots", Show(ListOf(a[12]))>> }

\* the event handler h reports for key: a set of at most one [e, t, f]
Report(table, h, key) ==
  LET in == table[key]
  IN CASE h = "skip" -> { [e |-> "skip", t |-> in.type, f |-> {}] }
       [] h = "ADVANCED_FACE" -> { [e |-> "face", t |-> TypeAt(table, in.refs[3]), f |-> {}] }
       [] h = "SPHERICAL_SURFACE" -> { [e |-> "sphere", t |-> "", f |-> {<<"radius", in.args[3]>>}] }
       [] h = "TOROIDAL_SURFACE" -> { [e |-> "torus", t |-> "", f |-> {}] }
       [] h = "B_SPLINE_SURFACE_WITH_KNOTS" -> { [e |-> "bspline", t |-> "", f |-> BSpline(in.args)] }
       [] OTHER -> {}
Leads(table, h, key) ==
  LET in == table[key]
      S(hh, k) == [h |-> hh, key |-> k]
  IN CASE h = "ADVANCED_FACE" ->
            LET k == in.refs[3] IN
            IF TypeAt(table, k) \in {"SPHERICAL_SURFACE", "TOROIDAL_SURFACE"} THEN << S(TypeAt(table, k), k) >> ELSE <<>>
       [] h = "PRODUCT_DEFINITION_SHAPE" -> << S("PRODUCT_DEFINITION", in.refs[3]) >>
       [] h = "PRODUCT_DEFINITION" -> << S("PRODUCT_DEFINITION_FORMATION", in.refs[3]), S("PRODUCT_DEFINITION_CONTEXT", in.refs[3]) >>
       [] h = "AXIS_2_PLACEMENT_3D" -> << S("point", in.refs[2]), S("DIRECTION", in.refs[2]), S("DIRECTION", in.refs[2]) >>
       [] OTHER -> <<>>
=============================================================================
