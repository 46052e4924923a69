class UFLObject:
    pass
