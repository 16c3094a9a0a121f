"""What each property's check runs.  Values given as (quick, thorough)."""
UNITS = {
    "agent": dict(pkg="agent", spec="AgentTrace", rand=(2000, 30000),
                  gens=[dict(mod="AgentGen", depth=(2, 2)),
                        dict(mod="AgentGen", mode="sim", num=(300, 6000), depth=(25, 40))]),
    "agentconc": dict(pkg="conc", spec="AgentConcTrace", rand=(60, 400)),
    "agentconc_race": dict(pkg="conc", name="agentconc", race=True, spec="AgentConcTrace", rand=(12, 40)),
    "budget": dict(pkg="conc", spec="BudgetTrace", rand=(1500, 20000)),
    "budgetconc": dict(pkg="conc", spec="BudgetTrace", rand=(60, 400)),
    "budgetconc_race": dict(pkg="conc", name="budgetconc", race=True, spec="BudgetTrace", rand=(12, 40)),
    "neighbors": dict(pkg="neigh", spec="NeighborsTrace", rand=(150, 3000),
                      gens=[dict(mod="NeighborsGen", depth=(2, 3), env=dict(KIND="agent"), max=(300, 10000)),
                            dict(mod="NeighborsGen", mode="sim", num=(60, 1000), depth=(20, 40), env=dict(KIND="agent"))]),
    "store": dict(pkg="neigh", spec="NeighborsTrace", rand=(150, 3000),
                  gens=[dict(mod="NeighborsGen", depth=(3, 4), env=dict(KIND="store"), max=(4000, 60000)),
                        dict(mod="NeighborsGen", mode="sim", num=(60, 1000), depth=(20, 40), env=dict(KIND="store"))]),
    "swarmbuild": dict(pkg="swarmx", spec="SwarmTrace", rand=(250, 4000), gens=[dict(mod="SwarmGen")]),
    "topology": dict(pkg="swarmx", spec="SwarmTrace"),
    "views": dict(pkg="swarmx", spec="SwarmTrace", rand=(130, 1500)),
    "coh": dict(pkg="coh", spec="CoherenceTrace", rand=(300, 6000),
                gens=[dict(mod="CoherenceGen", depth=(1, 1)), dict(mod="CoherenceGen", depth=(2, 3), max=(2500, 30000))]),
    "run": dict(pkg="runx", spec="RunTrace", rand=(400, 6000), consts=dict(Mg=10)),
    "cont": dict(pkg="runx", spec="ContTrace", rand=(350, 4000), consts=dict(Mg=60)),
    "step": dict(pkg="runx", spec="StepTrace", rand=(500, 8000), consts=dict(Mg=10, Ts=900), gens=[dict(mod="StepGen", max=(1200, 19800))]),
    "reach": dict(pkg="runx", spec="StepTrace", rand=(700, 9000), consts=dict(Mg=10, Ts=900)),
    "monitor": dict(pkg="monx", spec="MonitorTrace", rand=(150, 3000),
                    gens=[dict(mod="MonitorGen", depth=(4, 5), max=(1500, 16000))]),
    "monconc": dict(pkg="monx", spec="MonitorTrace", rand=(60, 400)),
    "monconc_race": dict(pkg="monx", name="monconc", race=True, spec="MonitorTrace", rand=(12, 40)),
    "progress": dict(pkg="monx", spec="ProgressTrace", rand=(400, 6000),
                     gens=[dict(mod="ProgressGen", depth=(4, 5), max=(3000, 25000))]),
    "config": dict(pkg="cfgx", spec="ConfigTrace", rand=(2500, 40000), gens=[dict(mod="ConfigGen", max=(9000, 70000))]),
    "usable": dict(pkg="cfgx", spec="UsableTrace"),
    "moves": dict(pkg="mind", spec="MindTrace", rand=(500, 10000), gens=[dict(mod="MindGen", env=dict(KIND="move"))]),
    "decide": dict(pkg="mind", spec="MindTrace", rand=(700, 15000), gens=[dict(mod="MindGen", env=dict(KIND="decide"), max=(4000, 10000))]),
    "batch": dict(pkg="batchx", spec="BatchTrace", rand=(240, 1600), consts=dict(Max=100, Cap=100),
                  gens=[dict(mod="BatchGen", depth=(4, 5), env=dict(KIND="mgr"), max=(220, 1500))]),
    "totals": dict(pkg="batchx", spec="BatchTrace", rand=(200, 3000), consts=dict(Max=100, Cap=100),
                   gens=[dict(mod="BatchGen", depth=(3, 4), env=dict(KIND="met"), max=(2500, 25000))]),
    "sim": dict(pkg="simx", spec="SimTrace", rand=(36, 400), consts=dict(Tol=20),
                gens=[dict(mod="SimGen", depth=(5, 6), max=(70, 700))]),
    "sim_race": dict(pkg="simx", name="sim", race=True, spec="SimTrace", rand=(14, 60), consts=dict(Tol=20)),
    "wpool": dict(pkg="poolx", spec="WorkPoolTrace", rand=(200, 3000), gens=[dict(mod="WorkPoolGen", depth=(7, 8), max=(2500, 20000))]),
    "wpoolconc": dict(pkg="poolx", spec="WorkPoolTrace", rand=(300, 3000)),
    "wpoolconc_race": dict(pkg="poolx", name="wpoolconc", race=True, spec="WorkPoolTrace", rand=(60, 400)),
    "apool": dict(pkg="poolx", spec="AgentPoolTrace", rand=(200, 3000), gens=[dict(mod="AgentPoolGen", depth=(4, 5), max=(2500, 20000))]),
    "apoolconc": dict(pkg="poolx", spec="AgentPoolTrace", rand=(150, 1500)),
    "apoolconc_race": dict(pkg="poolx", name="apoolconc", race=True, spec="AgentPoolTrace", rand=(40, 200)),
    "pair": dict(pkg="patx", spec="PatternTrace", rand=(300, 5000), gens=[dict(mod="PatternGen", env=dict(KIND="pair"), max=(3000, 30000))]),
    "complete": dict(pkg="patx", spec="PatternTrace", rand=(400, 6000)),
    "completeconc_race": dict(pkg="patx", name="completeconc", race=True, spec="PatternTrace", rand=(40, 300)),
    "seq": dict(pkg="patx", spec="PatternTrace", rand=(300, 5000), gens=[dict(mod="PatternGen", env=dict(KIND="seq"), max=(3000, 40000))]),
    "patsim": dict(pkg="patx", name="sim", spec="PatternTrace", rand=(400, 6000), gens=[dict(mod="PatternGen", env=dict(KIND="sim"), max=(2000, 4000))]),
    "ctrl": dict(pkg="uix", spec="RunnerTrace", rand=(400, 4000)),
    "runner": dict(pkg="uix", spec="RunnerTrace", rand=(250, 4000), gens=[dict(mod="RunnerGen", depth=(4, 5), max=(700, 8000))]),
    "runner_race": dict(pkg="uix", name="runner", race=True, spec="RunnerTrace", rand=(40, 300)),
    "app": dict(pkg="uix", spec="RunnerTrace", rand=(24, 150), progs=dict(VERIF_MAIN="simulations/emerge")),
    "traffic": dict(pkg="trafx", spec="TrafficTrace", rand=(120, 2000), gens=[dict(mod="TrafficGen", depth=(3, 4), max=(216, 1296))]),
    "catalog": dict(pkg="trafx", spec="TrafficTrace"),
    "analysis": dict(pkg="anax", spec="AnalysisTrace", rand=(300, 6000), consts=dict(Slack=2), gens=[dict(mod="AnalysisGen", max=(4000, 36000))]),
    "chance": dict(pkg="anax", spec="ChanceTrace", rand=(60, 1500)),
    "build": dict(pkg="bldx", spec="BuildTrace", rand=(500, 12000), consts=dict(Ms=1000), gens=[dict(mod="BuildGen", max=(2500, 9000))]),
    "basin": dict(pkg="basx", spec="BasinTrace", rand=(600, 20000), gens=[dict(mod="BasinGen", max=(3000, 20000))]),
    "display": dict(pkg="dispx", spec="DisplayTrace", rand=(260, 3000), consts=dict(RadN=1000, RadD=1),
                    gens=[dict(mod="DisplayGen", depth=(2, 3), max=(300, 6000))]),
    "text": dict(pkg="dispx", spec="DisplayTrace", rand=(150, 2000), consts=dict(RadN=1000, RadD=1)),
    "runnerreal": dict(pkg="uix", spec="RunnerTrace", rand=(12, 160)),
}
PROPS = {
    "C01": dict(mc=[("AgentMC", "AgentMC.cfg")], units=["agent"]),
    "C02": dict(mc=[("AgentMC", "AgentMC.cfg")], units=["agent"]),
    "C03": dict(mc=[("AgentConc", "AgentConcA.cfg"), ("AgentConc", "AgentConcB.cfg")],
                units=["agentconc", "agentconc_race"]),
    "C04": dict(mc=[("BudgetMC", "BudgetMC.cfg")], units=["budget", "budgetconc", "budgetconc_race"]),
    "C05": dict(mc=[("NeighborsImpl", "NeighborsImpl.cfg")], units=["neighbors", "store"]),
    "C06": dict(mc=[("SwarmConnMC", "SwarmConnMC.cfg")], units=["swarmbuild"]),
    "C07": dict(mc=[("SwarmConnMC", "SwarmConnMC.cfg")], units=["topology"]),
    "C08": dict(mc=[("SwarmConnMC", "SwarmConnMC.cfg")], units=["views"]),
    "C09": dict(mc=[("CoherenceMC", "CoherenceMC.cfg"), ("CoherenceMC", "CoherenceMCBig.cfg", 1)], units=["coh"]),
    "C10": dict(mc=[("SyncMC", "SyncMC.cfg")], units=["run"]),
    "C11": dict(mc=[("SyncMC", "SyncMC.cfg")], units=["cont"]),
    "C12": dict(mc=[("MonitorMC", "MonitorMC.cfg"), ("MonitorMC", "MonitorMCBig.cfg", 1)], units=["monitor", "run", "cont"]),
    "C13": dict(mc=[("MonitorLock", "MonitorLock.cfg")], units=["monconc", "monconc_race"]),
    "C14": dict(mc=[("ProgressMC", "ProgressMC.cfg")], units=["progress"]),
    "C15": dict(mc=[("ConfigMC", "ConfigMC.cfg")], units=["config"]),
    "C16": dict(mc=[("UsableMC", "UsableMC.cfg")], units=["usable"]),
    "C17": dict(mc=[("MindMC", "MindMC.cfg")], units=["moves"]),
    "C18": dict(mc=[("MindMC", "MindMC.cfg")], units=["decide"]),
    "C19": dict(mc=[("BatchMC", "BatchMC.cfg")], units=["totals", "batch"]),
    "C20": dict(mc=[("SimMC", "SimMC.cfg")], units=["sim", "sim_race", "traffic"]),
    "C21": dict(mc=[("WorkPoolMC", "WorkPoolMC.cfg"), ("WorkPoolMC", "WorkPoolStop.cfg")],
                units=["wpool", "wpoolconc", "wpoolconc_race"]),
    "C22": dict(mc=[("AgentPoolMC", "AgentPoolMC.cfg")], units=["apool", "apoolconc", "apoolconc_race"]),
    "C23": dict(mc=[("PatternMC", "PatternMC.cfg")], units=["pair", "complete", "seq", "completeconc_race"]),
    "C24": dict(mc=[("RunnerMC", "RunnerMC.cfg")], units=["ctrl", "runner", "runner_race", "runnerreal", "app"]),
    "C26": dict(mc=[("TrafficMC", "TrafficMC-%s.cfg" % p) for p in ("high", "burst", "steady", "mixed", "sparse")], units=["traffic", "catalog"]),
    "C25": dict(mc=[("PatternMC", "PatternMC.cfg")], units=["patsim"]),
    "C27": dict(mc=[("BuildMC", "BuildMC.cfg")], units=["build"]),
    "C29": dict(mc=[("StepMC", "StepMC.cfg"), ("StepMC", "StepMCLow.cfg", 1)], units=["step", "reach"]),
    "C30": dict(mc=[("DisplayMC", "DisplayMC.cfg")], units=["display", "text"]),
    "C31": dict(mc=[("AnalysisMC", "AnalysisMC.cfg")], units=["analysis"]),
    "C32": dict(mc=[("ChanceMC", "ChanceMC.cfg")], units=["chance"]),
    "C28": dict(mc=[("BasinMC", "BasinMC.cfg")], units=["basin"]),
}
