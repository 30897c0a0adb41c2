--------------------------- MODULE TvDisplayTrace --------------------------
EXTENDS TvDisplay, TraceIO
(* Every event carries: len, the length of the 0-terminated text in the buffer after the call; tail, the text from *)
(* where this call was to write; pre, whether the text before that point is unchanged.                              *)
Sound(e) == e.len = used' /\ e.pre
Row(e) ==
  LET text == RowText(e.name, e.type, e.addr)
      legal == Legal(e.name) /\ Legal(e.type)
      code == Code(legal, Len(text), Start)
  IN /\ AddRow(legal, Len(text))
     /\ e.r = code
     /\ e.tail = IF code = Ok THEN text ELSE <<>>
TraceInit == Init /\ l = 1
TraceNext ==
  /\ More /\ Advance
  /\ \/ Event.op = "begin" /\ mode' = "inactive" /\ used' = Event.len
     \/ Event.op = "pre" /\ Pre /\ Sound(Event)
     \/ Event.op = "post" /\ Post /\ Sound(Event)
     \/ Event.op = "row" /\ Row(Event) /\ Sound(Event)
     \/ Event.op = "okcode" /\ UNCHANGED vars /\ Event.r = (IF Event.v \in {0, 1} THEN 1 ELSE 0)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
