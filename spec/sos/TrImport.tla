------------------------------ MODULE TrImport ------------------------------
EXTENDS Import, TraceKit
Accept(e) ==
  CASE e.op = "import" -> IF Fits(e.order, e.flat)
                          THEN e.st = "ok" /\ e.res = Import(e.order, e.flat) /\ e.delay = AtRest(e.order)
                          ELSE e.st = "panic"
    [] e.op = "new" -> e.st = "ok" /\ e.res = <<e.flat>> /\ e.delay = AtRest(1)
    [] e.op = "default" -> e.st = "ok" /\ e.delay = AtRest(1)
    [] OTHER -> FALSE
Init == TraceInit
Next == StatelessNext(Accept)
=============================================================================
