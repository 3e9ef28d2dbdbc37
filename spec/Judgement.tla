----------------------------- MODULE Judgement -----------------------------
(* All verdicts. *)
EXTENDS Reports, Sim, Wording

JFunction(P, e, log) ==
    CASE e.f = "report" -> JReport(e, log)
      [] e.f = "plot" -> JPlot(e)
      [] e.f = "engine" -> JEngine(e)
      [] e.f = "wiener" -> JWiener(e)
      [] e.f = "payoff" -> JPayoff(e)
      [] e.f = "mc" -> JEndToEnd(e)
      [] e.f = "innovations" -> JInnovations(e, log)
      [] e.f = "hnsim" -> JHNSim(e)
      [] e.f = "hnfit" -> JHNFit(e, log)
      [] OTHER -> << Truth("malformed", FALSE, e) >>
=============================================================================
