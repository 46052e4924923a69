class UFLData:
    def __init__(self, form_data=()):
        self.form_data = form_data


def analyze_ufl_objects(ufl_objects, scalar_type):
    return UFLData(tuple((f, scalar_type) for f in ufl_objects))
