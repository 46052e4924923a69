class FormData:
    pass
