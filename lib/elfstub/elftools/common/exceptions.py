class ELFError(Exception):
    pass


class ELFParseError(ELFError):
    pass
