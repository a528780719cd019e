---------------------------- MODULE ReflectTrace ----------------------------
EXTENDS Reflect, TraceCheck
ClassesDef == <<"Base", "Left", "Right", "Mix", "Leaf", "Proto">>
MRODef == [c \in RangeOf(ClassesDef) |->
    CASE c = "Base" -> <<"Base", "Node">> [] c = "Left" -> <<"Left", "Base", "Node">>
      [] c = "Right" -> <<"Right", "Base", "Node">> [] c = "Mix" -> <<"Mix", "Node">>
      [] c = "Leaf" -> <<"Leaf", "Left", "Right", "Base", "Mix", "Node">>
      [] c = "Proto" -> <<"Proto", "Leaf", "Left", "Right", "Base", "Mix", "Node">>]
KeysDef == <<"x", "y", "z", "set_x", "y_changed", "w", "v">>
Bare == <<"x", " x", "y", " y", "z", " z", "w", "v", "DEF", " DEF", "externalURL", "rootSceneGraph", " root", "nope", "s t", "set_", "_changed">>
NamesDef == Bare \o [q \in 1..Len(Bare) |-> "set_" \o Bare[q]] \o [q \in 1..Len(Bare) |-> Bare[q] \o "_changed"]
            \o [q \in 1..Len(Bare) |-> "set_" \o Bare[q] \o "_changed"] \o <<"set_set_x", "y_changed_changed">>
=============================================================================
