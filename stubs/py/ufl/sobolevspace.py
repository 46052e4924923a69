class SobolevSpace:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


L2, H1, H2, HInf, HDiv, HCurl, HEin, HDivDiv = map(
    SobolevSpace, ["L2", "H1", "H2", "HInf", "HDiv", "HCurl", "HEin", "HDivDiv"])
