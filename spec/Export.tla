------------------------------- MODULE Export -------------------------------
(* Writes the layouts of BlfFormat as JSON, so that the drivers generate      *)
(* inputs and project objects in exactly the order the specification uses.   *)
EXTENDS BlfFormat, TLC, Json, IOUtils
VARIABLE done
ToRec(cls) == [cls |-> cls, fields |-> FieldsOf[cls], nfixed |-> NFixed[cls], end |-> FixedEnd[cls],
               tail |-> TailKind(cls), parts |-> PartsOf(cls),
               codes |-> IF cls \in ObjectClasses THEN CodesFor(cls) ELSE {},
               obj |-> cls \in ObjectClasses]
Out == [classes |-> [cls \in Classes |-> ToRec(cls)],
        dispatch |-> [c \in 1..140 |-> ClassOf(c)], types |-> ObjTypeCodes, apps |-> AppIdCodes,
        closed |-> [e \in ClosedEnums |-> ClosedCodes[e]], cp1252 |-> Cp1252,
        contiguous |-> \A cls \in Classes : \A k \in 2..NFixed[cls] :
             FieldsOf[cls][k][3] = FieldsOf[cls][k-1][3] + FieldsOf[cls][k-1][4]]
Init == done = JsonSerialize(IOEnv.OUT, Out)
Next == FALSE /\ UNCHANGED done
=============================================================================
