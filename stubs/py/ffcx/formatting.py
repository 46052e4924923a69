def format_code(code):
    return "".join(b[0] for b in code), "".join(b[1] for b in code)
