libraries = ["m"]
