"""number formats of the locale the client sets"""
point = '.'
thousands = ''


def localeconv():
    return {'decimal_point': point, 'thousands_sep': thousands, 'grouping': []}


def delocalize(string):
    if thousands:
        string = string.replace(thousands, '')
    if point:
        string = string.replace(point, '.')
    return string


def atof(string, func=float):
    return func(delocalize(string))


def atoi(string):
    return int(delocalize(string))
