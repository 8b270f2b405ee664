"""Which specification modules decide which property, and how the drivers are built."""
STATS = [("stats/MCStats", {"quick": "MCStats", "thorough": "MCStats7"}), "stats/MCRecipes"]
SAVGOL = [("savgol/MCSavgol", {"quick": "MCSavgol", "thorough": "MCSavgol15"})]
DESIGN = [("design/MCDesign", {"quick": "MCDesign", "thorough": "MCDesign8"})]
PAIRING = [("design/MCPairing", {"quick": "MCPairing", "thorough": "MCPairing18"})]
PROPS = {
    "C01": dict(mc=["sos/MCSos"], tr="sos/TrSos"),
    "C02": dict(mc=["sos/MCSos"], gen="sos/GenSos", tr="sos/TrSos"),
    "C03": dict(mc=["sos/MCSteady"], tr="sos/TrSteady"),
    "C04": dict(mc=["sos/MCFiltFilt"], tr="sos/TrFiltFilt"),
    "C05": dict(mc=["sos/MCExt"], tr="sos/TrExt"),
    "C06": dict(mc=DESIGN, tr="design/TrDesign"),
    "C07": dict(mc=DESIGN, tr="design/TrDesign"),
    "C08": dict(mc=DESIGN, tr="design/TrDesign"),
    "C09": dict(mc=DESIGN, tr="design/TrDesign"),
    "C10": dict(mc=DESIGN + PAIRING, tr="design/TrDesign"),
    "C11": dict(mc=PAIRING, tr="design/TrDesign"),
    "C12": dict(mc=DESIGN, tr="design/TrDesign"),
    "C13": dict(mc=DESIGN, tr="design/TrDesign"),
    "C14": dict(mc=DESIGN, tr="design/TrDesign"),
    "C31": dict(mc=DESIGN, tr="design/TrDesign"),
    "C32": dict(mc=DESIGN + ["design/MCPipeline"], tr="design/TrPipeline"),
    "C33": dict(mc=["heap/MCHeap"], tr="heap/TrHeap"),
    "C34": dict(mc=["stream/MCStream"], tr="stream/TrStream"),
    "C22": dict(mc=["ints/MCCombin"], tr="ints/TrCombin"),
    "C23": dict(mc=["ints/MCCombin"], tr="ints/TrCombin"),
    "C19": dict(mc=STATS, tr="stats/TrStats"),
    "C20": dict(mc=STATS, tr="stats/TrStats"),
    "C21": dict(mc=STATS, tr="stats/TrStats"),
    "C15": dict(mc=[("wave/MCConvolve", {"quick": "MCConvolve", "thorough": "MCConvolve5"})], tr="wave/TrConvolve"),
    "C16": dict(mc=[("wave/MCResample", {"quick": "MCResample", "thorough": "MCResample10"}), ("lib/MCTrig", {"thorough": "MCTrig"})], tr="wave/TrResample"),
    "C25": dict(mc=["wave/MCSquare", ("lib/MCTrig", {"thorough": "MCTrig"})], tr="wave/TrSquare"),
    "C17": dict(mc=SAVGOL, tr="savgol/TrSavgol"),
    "C18": dict(mc=SAVGOL, tr="savgol/TrSavgol"),
    "C24": dict(mc=["special/MCBessel", ("lib/MCTrig", {"thorough": "MCTrig"})], tr="special/TrBessel"),
    "C26": dict(mc=["special/MCCompanion"], tr="special/TrCompanion"),
    "C27": dict(mc=["config/MCConfig"], tr="config/TrConfig", variants=["full", "alloc"], release=False,
                drivers=["C%02d" % i for i in range(1, 35) if i not in (15, 16, 28, 30, 32, 33)]),
    "C30": dict(mc=[("pure/MCPure", "MCPure"), ("pure/MCPure", "MCCached"), "pure/MCTour"], tr="pure/TrPure", release=False,
                histories=[["C01", "C02", "C03", "C04", "C05", "C29"], ["C17", "C18", "C26"], ["C06", "C10", "C11", "C12", "C13"], ["C07", "C08", "C09", "C14", "C31", "C32"],
                           ["C19", "C20", "C21"], ["C22", "C23"], ["C15", "C16", "C24", "C25"], ["C27"]]),
    "C28": dict(mc=[("plot/MCPlot", "MCPlot"), ("plot/MCPlot", "MCPlotPatient"), ("plot/MCPlot", {"quick": "MCPlotBig", "thorough": "MCPlotBig"})], tr="plot/TrPlot", release=False),
    "C29": dict(mc=["sos/MCImport"], tr="sos/TrImport"),
}
