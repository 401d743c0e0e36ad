"""Bounded instances of the specifications: which constants, which properties."""

STEREO = dict(Wide="FALSE", Shapes="<- ShapesRow", Intensities="<- I2", Weights="<- W1", PhiValues="<- None",
              MaxGraphs="1", MaxJobs="2", Ops="<- OpsAll")


def cfg(constants, invariants=(), properties=(), extra=""):
    t = "SPECIFICATION Spec\nCONSTANTS\n"
    for k, v in constants.items():
        t += " %s %s\n" % (k, v if v.startswith("<-") else "= " + v)
    t += "CHECK_DEADLOCK FALSE\n" + extra
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    return t


def stereo(invariants=(), properties=("ContractsKept",), emit=False, **over):
    c = dict(STEREO)
    c.update({k: v if v[0].isdigit() else "<- " + v for k, v in over.items()})
    return cfg(c, invariants, properties, "VIEW View\n" + ("ACTION_CONSTRAINT Emit\n" if emit else ""))
