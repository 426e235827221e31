-------------------------------- MODULE C10Ops --------------------------------
(* Descriptions of a layer and what they denote: the discrete problem they pose.*)
EXTENDS Integers, Sequences, FiniteSets
Homogeneous == {"hom_iso", "hom_tensor", "hom_gen"}
Patterned == {"pat_iso", "pat_tensor", "pat_gen"}
Gratings == {"grating"}
Kinds == Homogeneous \cup Patterned \cup Gratings
Forms == {"fft", "pol", "normal", "jones", "jones_direct", "jones_direct_fourier", "pol_fourier", "normal_fourier", "jones_fourier"}
Apis == {"iso", "aniso", "gen"}
Layouts == {"unit", "const", "const2", "line", "grid"}
Descs == [api : Apis, lay : Layouts, form : Forms, call : BOOLEAN, src : {"default", "explicit"}]
\* Which descriptions of a material exist.
Admissible(kind, d) ==
    /\ d.api = "iso" => kind \in {"hom_iso", "pat_iso", "grating"}
    /\ d.api = "aniso" => kind \notin {"hom_gen", "pat_gen"}
    /\ CASE kind \in Homogeneous -> d.lay \in {"unit", "const", "const2"}
         [] kind \in Patterned -> d.lay = "grid"
         [] kind \in Gratings -> d.lay \in {"line", "grid"}
    /\ d.call => d.form # "fft"
    /\ d.src = "explicit" => d.api = "gen"
\* The discrete problem posed.
Denote(kind, d) ==
    IF kind \in Homogeneous THEN <<"exact">>                 \* no pattern: all factorizations agree
    ELSE IF d.form = "fft" THEN <<"laurent">>
    ELSE IF kind \in Gratings THEN <<"normal inverse">>      \* one uniform tangent direction
    ELSE IF d.api = "iso" THEN <<"projector", d.form>>       \* correction of the Laurent rule along the normal
    ELSE <<"local frame", d.form>>                           \* rotation to the local frame
===============================================================================
