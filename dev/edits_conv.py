C, V = 'Converter.py', 'Validator.py'
M = '''            m = _parser(formatted_value.strip())
            if m is not None:
                decimal_point = locale.localeconv().get("decimal_point", ".")
                if decimal_point != '.':
                    return locale.atof(m.group(0).replace(".", decimal_point))
                return locale.atof(m.group(0))
            return 0.0
        else:
            decimal_point = locale.localeconv().get("decimal_point", ".")
            if decimal_point != '.':
                return locale.atof(formatted_value.replace(".", decimal_point))
            return locale.atof(formatted_value)
'''
U = '''        if value is None:
            return None
        if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                        value.strip(), re.IGNORECASE) is not None:
            return uuid.UUID(value.strip())
        return None
'''
D = '''        try:
            if len(value) == 26:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
            elif len(value) == 19:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
        except ValueError as e:
            pass  # fall through
        return None'''
BAD = [
 ('cv-de-thousands', 'C25', C, [('''                if decimal_point != '.':
                    return locale.atof(m.group(0).replace(".", decimal_point))
                return locale.atof(m.group(0))
            return 0.0''', '''                return locale.atof(m.group(0))
            return 0.0''')]),
 ('cv-float', 'C25', C, [('''            if decimal_point != '.':
                return locale.atof(formatted_value.replace(".", decimal_point))
            return locale.atof(formatted_value)
''', '''            return float(formatted_value.replace(decimal_point, "."))
''')]),
 ('cv-zero-none', 'C25', C, [('''            return 0.0
        else''', '''            return None if self.__pass_none else 0.0
        else''')]),
 ('cv-uuid-match', 'C25', C, [('re.fullmatch(', 're.match(')]),
 ('cv-uuid-strip', 'C25', C, [('''                        value.strip(), re.IGNORECASE)''', '''                        value, re.IGNORECASE)''')]),
 ('cv-search', 'C25', C, [('re.VERBOSE | re.IGNORECASE).match', 're.VERBOSE | re.IGNORECASE).search')]),
]
GOOD = [
 ('cv-g-helper', C, [(M, '''            m = _parser(formatted_value.strip())
            if m is None:
                return 0.0
            text = m.group(0)
        else:
            text = formatted_value
        return self.__parse(text)

    def __parse(self, text):
        point = locale.localeconv().get("decimal_point", ".")
        return locale.atof(text if point == "." else point.join(text.split(".")))
''')]),
 ('cv-g-always', C, [(M, '''            m = _parser(formatted_value.strip())
            if not m:
                return 0.0
            formatted_value = m[0]
        return locale.atof(formatted_value.replace(".", locale.localeconv()["decimal_point"]))
''')]),
 ('cv-g-groups', C, [(M, '''            m = _parser(formatted_value.strip())
            formatted_value = m.group() if m else "0"
        point = locale.localeconv().get("decimal_point", ".")
        if point != '.':
            formatted_value = formatted_value.replace(".", point)
        return locale.atof(formatted_value)
''')]),
 ('cv-g-span', C, [(M, '''            text = formatted_value.strip()
            m = _parser(text)
            if m is None:
                return 0.0
            text = text[:m.end()]
        else:
            text = formatted_value
        point = locale.localeconv().get("decimal_point", ".")
        if point != '.':
            text = text.replace(".", point)
        return locale.atof(text)
''')]),
 ('cv-g-uuid', C, [(U, '''        text = value.strip() if value is not None else ""
        pattern = re.compile("[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}")
        return uuid.UUID(text) if pattern.fullmatch(text.lower()) else None
''')]),
 ('cv-g-uuid2', C, [(U, '''        if value is None:
            return None
        text = value.strip()
        try:
            result = uuid.UUID(text)
        except ValueError:
            return None
        if str(result) != text.lower() or result.version != 4:
            return None
        return result
''')]),
 ('cv-g-date', C, [(D, '''        formats = {26: "%Y-%m-%dT%H:%M:%S.%f", 19: "%Y-%m-%dT%H:%M:%S"}
        format = formats.get(len(value))
        if format is None:
            return None
        try:
            return datetime.datetime.strptime(value, format)
        except ValueError:
            return None''')]),
 ('cv-g-range', V, [('''        if self.__min is not None:
            value = max(self.__min, value)
        if self.__max is not None:
            value = min(self.__max, value)
''', '''        lo, hi = self.__min, self.__max
        if lo is not None and value < lo:
            value = lo
        if hi is not None and value > hi:
            value = hi
''')]),
]
