G, C, V = 'Geometry.py', 'Converter.py', 'Validator.py'
BAD = [
 ('geo-ne-and', 'C24', G, [('return self.__x != other.x or self.__y != other.y', 'return self.__x != other.x and self.__y != other.y', 1)]),
 ('geo-rect-ne', 'C24', G, [('return self.__origin != other.origin or self.__size != other.size', 'return self.__origin != other.origin', 2)]),
 ('geo-eq-tuple', 'C24', G, [("            other = FloatSize.make(other)\n            return self.__width == other.width and self.__height == other.height", "            return self.__width == other[0] and self.__height == other[1]")]),
 ('geo-contains-right', 'C24', G, [('point.x < self.right and point.y >= self.top', 'point.x <= self.right and point.y >= self.top', 1)]),
 ('geo-contains-top', 'C24', G, [('point.y >= self.top', 'point.y > self.top', 2)]),
 ('geo-inset-zero', 'C24', G, [('dy = dy if dy is not None else dx', 'dy = dy or dx', 1)]),
 ('geo-inset-size', 'C24', G, [('width=self.width - dx * 2)', 'width=self.width - dx - dy)', 2)]),
 ('geo-rotate-sign', 'C24', G, [('        y = origin.y + sin_rad * dx + cos_rad * dy', '        y = origin.y - sin_rad * dx + cos_rad * dy')]),
 ('geo-rotate-origin', 'C24', G, [('        x = origin.x + cos_rad * dx - sin_rad * dy', '        x = cos_rad * dx - sin_rad * dy')]),
 ('geo-union', 'C24', G, [('        right = max(self.right, rect.right)', '        right = max(self.right, rect.left)', 1)]),
 ('geo-intersect', 'C24', G, [('        bottom = min(self.bottom, rect.bottom)', '        bottom = min(self.bottom, rect.top)', 2)]),
 ('geo-center', 'C24', G, [('x=(self.left + self.right) // 2', 'x=self.left + self.height // 2')]),
 ('geo-center-round', 'C24', G, [('y=(self.top + self.bottom) // 2', 'y=(self.top + self.bottom + 1) // 2')]),
 ('geo-center-neg', 'C24', G, [('y=(self.top + self.bottom) // 2', 'y=(self.top + self.bottom) / 2')]),
 ('geo-fromcenter', 'C24', G, [('origin = center - IntSize(height=size.height * 0.5, width=size.width * 0.5)', 'origin = center - IntSize(height=size.height * 0.5, width=size.height * 0.5)')]),
 ('geo-make-order', 'C24', G, [('return FloatSize(value[0], value[1])', 'return FloatSize(value[1], value[0])')]),
 ('geo-iter', 'C24', G, [('        yield self.__height\n        yield self.__width', '        yield self.__width\n        yield self.__height', 1)]),
 ('geo-getitem', 'C24', G, [('return (self.__height, self.__width)[index]', 'return (self.__width, self.__height)[index]', 2)]),
 ('geo-hw', 'C24', G, [('        elif h is not None:\n            self.__height = int(h)', '        elif h:\n            self.__height = int(w)')]),
 ('geo-h-zero', 'C24', G, [('        if height is not None:\n            self.__height = int(height)', '        if height:\n            self.__height = int(height)')]),
 ('geo-add-size', 'C24', G, [('return FloatPoint(y=self.__y + other.height, x=self.__x + other.width)', 'return FloatPoint(y=self.__y + other.width, x=self.__x + other.height)')]),
 ('geo-add-dispatch', 'C24', G, [('        elif isinstance(other, FloatRect):\n            return other + self\n', '')]),
 ('geo-truediv', 'C24', G, [('return FloatSize(self.__height / dividend, self.__width / dividend)', 'return FloatSize(self.__height / dividend, self.__width)')]),
 ('geo-rmul', 'C24', G, [('return IntSize(self.__height * multiplicand, self.__width * multiplicand)', 'return IntSize(self.__height * int(multiplicand), self.__width * int(multiplicand))', 2)]),
 ('geo-aspect', 'C24', G, [('return float(self.width) / float(self.height) if self.height != 0 else 1.0', 'return float(self.width) / float(self.height) if self.width != 0 else 1.0', 1)]),
 ('geo-map', 'C24', G, [('y=((p.y - f.top) / f.height) * t.height + t.top', 'y=((p.y - f.top) / f.height) * t.height + f.top')]),
 ('geo-mapsize', 'C24', G, [('width=(s.width / f.width) * t.width)', 'width=(s.width / f.width) * t.height)')]),
 ('geo-maprect', 'C24', G, [('FloatRect.from_center_and_size(map_point(r.center, f, t),', 'FloatRect.from_center_and_size(map_point(r.origin, f, t),')]),
 ('geo-fit', 'C24', G, [('    if rect.aspect_ratio > aspect_ratio:', '    if rect.aspect_ratio < aspect_ratio:')]),
 ('geo-fit-origin', 'C24', G, [('x=rect.left + 0.5 * (rect.width - new_size.width))', 'x=0.5 * (rect.width - new_size.width))')]),
 ('geo-fitsize', 'C24', G, [('float(fit_size[1])/float(fit_size[0])', 'float(fit_size[0])/float(fit_size[1])')]),
 ('geo-insetrect', 'C24', G, [('(rect[1][0] - 2*amount, rect[1][1] - 2*amount)', '(rect[1][0] - 2*amount, rect[1][1] - amount)')]),
 ('geo-dist', 'C24', G, [('pow(pt2[1] - pt1[1], 2)', 'pow(pt2[1] - pt1[0], 2)')]),
 ('geo-mid', 'C24', G, [('0.5 * (pt1[1] + pt2[1])', '0.5 * (pt1[1] + pt2[0])')]),
 ('geo-tlbr', 'C24', G, [('size = IntSize(height=bottom - top, width=right - left)', 'size = IntSize(height=bottom - top, width=right - left + 1)')]),
 ('geo-slice', 'C24', G, [('slice(self.left, self.right)', 'slice(self.left, self.width)')]),
 ('geo-isect', 'C24', G, [('if self.left > rect.right or rect.left > self.right:', 'if self.left > rect.right or rect.left > self.left:', 1)]),
 ('geo-isect-touch', 'C24', G, [('if self.bottom < rect.top or rect.bottom < self.top:', 'if self.bottom <= rect.top or rect.bottom < self.top:', 2)]),
 ('geo-translate', 'C24', G, [('return FloatRect(self.origin + FloatPoint.make(point), self.size)', 'return FloatRect.from_center_and_size(self.origin + FloatPoint.make(point), self.size)')]),
 ('geo-rect-add', 'C24', G, [('return IntRect.from_center_and_size(self.center + other, self.size)', 'return IntRect(self.center + other, self.size)')]),
 ('geo-tofloat', 'C24', G, [('return FloatRect.from_tlbr(self.top, self.left, self.bottom, self.right)', 'return FloatRect.from_tlhw(self.top, self.left, self.bottom, self.right)')]),
 ('geo-neg', 'C24', G, [('return IntPoint(y=-self.__y, x=-self.__x)', 'return IntPoint(y=-self.__y, x=self.__x)')]),
 ('geo-eq-none', 'C24', G, [("            return self.__origin != other.origin or self.__size != other.size\n        return True", "            return self.__origin != other.origin or self.__size != other.size\n        return False", 2)]),
 ('cnv-int-fmt', 'C25', C, [('return self.__format.format(int(value))', 'return "{:d}".format(int(value))')]),
 ('cnv-float-none', 'C25', C, [('        if self.__pass_none and (formatted_value is None or len(formatted_value) == 0):\n            return None\n        if self.__fuzzy', '        if self.__pass_none and formatted_value is None:\n            return None\n        if self.__fuzzy')]),
 ('cnv-float-none2', 'C25', C, [('        if self.__pass_none and value is None:\n            return None\n        return self.__format.format(value)', '        if self.__pass_none and not value:\n            return None\n        return self.__format.format(value)')]),
 ('cnv-regex', 'C25', C, [('(?P<exp>[-+]?\\d+)', '(?P<exp>[+]?\\d+)')]),
 ('cnv-regex-sign', 'C25', C, [('(?P<sign>[-+])?', '(?P<sign>[-])?')]),
 ('cnv-regex-flag', 'C25', C, [('re.VERBOSE | re.IGNORECASE', 're.VERBOSE')]),
 ('cnv-strip', 'C25', C, [('_parser(formatted_value.strip())', '_parser(formatted_value)')]),
 ('cnv-locale', 'C25', C, [('return locale.atof(m.group(0).replace(".", decimal_point))', 'return locale.atof(m.group(0).replace(decimal_point, "."))')]),
 ('cnv-scaled-off', 'C25', C, [('return value_int * (self.value_max - self.value_min) / self.n + self.value_min', 'return value_int * self.value_max / self.n + self.value_min')]),
 ('cnv-scaled-min', 'C25', C, [('int(self.n * (value - self.value_min) / (self.value_max - self.value_min))', 'int(self.n * value / (self.value_max - self.value_min))')]),
 ('cnv-percent', 'C25', C, [("/100.0", "/10.0")]),
 ('cnv-percent2', 'C25', C, [("float(formatted_value.strip('%'))", "float(formatted_value.strip())")]),
 ('cnv-phys', 'C25', C, [('convert_back(formatted_value) / self.__multiplier', 'convert_back(formatted_value) * self.__multiplier')]),
 ('cnv-phys-none', 'C25', C, [('        if self.__pass_none and value is None:\n            return None\n        return self.__format.format(value * self.__multiplier, self.__units)', '        if value is None:\n            value = 0.0\n        return self.__format.format(value * self.__multiplier, self.__units)')]),
 ('cnv-phys-fmt', 'C25', C, [('format + " {:s}" if format', '"{:g} {:s}" if format')]),
 ('cnv-check', 'C25', C, [('return value == "checked"', 'return "checked" in value')]),
 ('cnv-check2', 'C25', C, [('return value == "checked"', 'return value != "unchecked"')]),
 ('cnv-uuid', 'C25', C, [('[89AB]', '[89A]')]),
 ('cnv-uuid-case', 'C25', C, [('                        value.strip(), re.IGNORECASE)', '                        value.strip())')]),
 ('cnv-uuid-none', 'C25', C, [('return str(value) if value else None', 'return str(value)', 1)]),
 ('cnv-path', 'C25', C, [('return pathlib.Path(value) if value else None', 'return pathlib.Path(value or ".")')]),
 ('cnv-date-len', 'C25', C, [('if len(value) == 26', 'if len(value) > 26')]),
 ('cnv-date-fmt', 'C25', C, [('"%Y-%m-%dT%H:%M:%S.%f"', '"%Y-%d-%mT%H:%M:%S.%f"')]),
 ('val-zero', 'C25', V, [('if self.__min is not None:', 'if self.__min:')]),
 ('val-max', 'C25', V, [('value = min(self.__max, value)', 'value = max(self.__max, value)')]),
 ('val-else', 'C25', V, [('        if self.__max is not None:', '        elif self.__max is not None:')]),
]
GOOD = [
 ('geo-g-eq', G, [('return self.__x != other.x or self.__y != other.y', 'return not (self.__x == other.x and self.__y == other.y)', 'all'), ('return self.__origin != other.origin or self.__size != other.size', 'return not self == other', 'all')]),
 ('geo-g-iter', G, [('        yield self.__height\n        yield self.__width', '        yield from (self.__height, self.__width)', 'all'), ('        yield tuple(self.__origin)\n        yield tuple(self.__size)', '        return iter((tuple(self.__origin), tuple(self.__size)))', 'all')]),
 ('geo-g-hypot', G, [('return math.sqrt(pow(self.__x, 2) + pow(self.__y, 2))', 'return math.hypot(self.__x, self.__y)', 'all'), ('return math.sqrt(pow(self.__width, 2) + pow(self.__height, 2))', 'return (self.__width ** 2 + self.__height ** 2) ** 0.5', 'all'), ('math.sqrt(pow(pt2[0] - pt1[0], 2) + pow(pt2[1] - pt1[1], 2))', 'math.dist(pt1, pt2)')]),
 ('geo-g-chain', G, [('return point.x >= self.left and point.x < self.right and point.y >= self.top and point.y < self.bottom', 'return self.left <= point.x < self.right and self.top <= point.y < self.bottom', 'all'),
    ('''        if self.left > rect.right or rect.left > self.right:
            return False
        # if one rectangle is above the other
        if self.bottom < rect.top or rect.bottom < self.top:
            return False
        return True
''', '''        overlaps_x = self.left <= rect.right and rect.left <= self.right
        overlaps_y = self.top <= rect.bottom and rect.top <= self.bottom
        return overlaps_x and overlaps_y
''', 'all')]),
 ('geo-g-union', G, [('''        top = min(self.top, rect.top)
        left = min(self.left, rect.left)
        bottom = max(self.bottom, rect.bottom)
        right = max(self.right, rect.right)
        return IntRect.from_tlbr(top, left, bottom, right)
''', '''        top = self.top if self.top < rect.top else rect.top
        left = self.left if self.left < rect.left else rect.left
        height = max(self.bottom, rect.bottom) - top
        width = max(rect.right, self.right) - left
        return IntRect((top, left), (height, width))
''')]),
 ('geo-g-mul', G, [('''    def __rmul__(self, multiplicand) -> FloatPoint:
        multiplicand = float(multiplicand)
        return FloatPoint(y=self.__y * multiplicand, x=self.__x * multiplicand)
''', '''    def __rmul__(self, multiplicand) -> FloatPoint:
        return self * multiplicand
'''), ('''    def __sub__(self, other):
        other = FloatSize.make(other)
        return FloatSize(self.__height - other.height, self.__width - other.width)
''', '''    def __sub__(self, other):
        return self + -FloatSize.make(other)
''')]),
 ('geo-g-fit', G, [('''    if rect.aspect_ratio > aspect_ratio:
        # height will fill entire frame
        new_size = FloatSize(height=rect.height, width=rect.height * aspect_ratio)
        new_origin = FloatPoint(y=rect.top, x=rect.left + 0.5 * (rect.width - new_size.width))
        return FloatRect(origin=new_origin, size=new_size)
    else:
        new_size = FloatSize(height=rect.width / aspect_ratio, width=rect.width)
        new_origin = FloatPoint(y=rect.top + 0.5*(rect.height - new_size.height), x=rect.left)
        return FloatRect(origin=new_origin, size=new_size)
''', '''    height, width = rect.size
    if rect.aspect_ratio >= aspect_ratio:
        width = height * aspect_ratio
    else:
        height = width / aspect_ratio
    return FloatRect.from_center_and_size(rect.center, (height, width))
''')]),
 ('geo-g-map', G, [('''    return FloatPoint(y=((p.y - f.top) / f.height) * t.height + t.top,
                      x=((p.x - f.left) / f.width) * t.width + t.left)
''', '''    sy, sx = t.height / f.height, t.width / f.width
    return FloatPoint(y=t.top + sy * (p.y - f.top), x=t.left + sx * (p.x - f.left))
'''), ('''    return FloatRect.from_center_and_size(map_point(r.center, f, t),
                                          map_size(r.size, f, t))''', '''    return FloatRect(map_point(r.origin, f, t), map_size(r.size, f, t))''')]),
 ('geo-g-props', G, [('''    def __get_center(self):
        """ Return the center point. """
        return IntPoint(y=(self.top + self.bottom) // 2, x=(self.left + self.right) // 2)
    center = property(__get_center)
''', '''    @property
    def center(self):
        """ Return the center point. """
        def mid(lo, hi):
            return lo + (hi - lo) // 2
        return IntPoint(y=mid(self.top, self.bottom), x=mid(self.left, self.right))
'''), ('''    def __get_bottom_right(self):
        """ Return the bottom right point. """
        return IntPoint(y=self.bottom, x=self.right)
    bottom_right = property(__get_bottom_right)
''', '''    bottom_right = property(lambda self: self.__origin + self.__size)
''')]),
 ('geo-g-init', G, [('''        if height is not None:
            self.__height = float(height)
        elif h is not None:
            self.__height = float(h)
        else:
            self.__height = 0.0
        if width is not None:
            self.__width = float(width)
        elif w is not None:
            self.__width = float(w)
        else:
            self.__width = 0.0
''', '''        def first(*values):
            for value in values:
                if value is not None:
                    return float(value)
            return 0.0
        self.__height = first(height, h)
        self.__width = first(width, w)
''')]),
 ('geo-g-cls', G, [('        return IntPoint(y=value[0], x=value[1])', '        y, x = value\n        return cls(y=y, x=x)'), ('return FloatRect(self.origin + FloatPoint.make(point), self.size)', 'dy, dx = point\n        return FloatRect.from_tlhw(self.top + dy, self.left + dx, self.height, self.width)'),
    ('''    return (0.5 * (pt1[0] + pt2[0]), 0.5 * (pt1[1] + pt2[1]))''', '''    return tuple((a + b) / 2 for a, b in zip(pt1, pt2))'''), ('''    return ((rect[0][0] + amount, rect[0][1] + amount), (rect[1][0] - 2*amount, rect[1][1] - 2*amount))''', '''    (top, left), (height, width) = rect
    return (top + amount, left + amount), (height - 2 * amount, width - 2 * amount)''')]),
 ('geo-g-half', G, [('origin = center - IntSize(height=size.height * 0.5, width=size.width * 0.5)', 'origin = center - IntSize(height=size.height / 2, width=size.width / 2)'), ('y=(self.top + self.bottom) * 0.5, x=(self.left + self.right) * 0.5', 'y=self.top + self.height / 2, x=self.left + self.width / 2')]),
 ('geo-g-rot', G, [('''        origin = origin or FloatPoint()
        dx = self.x - origin.x
        dy = self.y - origin.y
''', '''        if origin is None:
            origin = FloatPoint()
        dy, dx = self - origin
''')]),
 ('geo-g-int', G, [('int(y)', 'math.trunc(y)'), ('        return IntSize(self.__height * multiplicand, self.__width * multiplicand)', '        height, width = (int(multiplicand * v) for v in self)\n        return IntSize(height=height, width=width)', 1)]),
 ('cnv-g-re', C, [('            m = _parser(formatted_value.strip())', '            m = _parser(formatted_value.strip())\n            # matched'), ('_parser = re.compile(r"""        # A numeric string consists of:', 'parser = re.compile(r"""        # a number:'), ('re.VERBOSE | re.IGNORECASE).match\n', 're.IGNORECASE | re.VERBOSE)\n            _parser = parser.match\n')]),
 ('cnv-g-re2', C, [('''class IntegerToStringConverter:''', '''_NUMBER = re.compile(r"[-+]?(?=\\d|[.,]\\d)\\d*(?:[.,]\\d*)?(?:E[-+]?\\d+)?", re.IGNORECASE)


def _parse(text):
    decimal_point = locale.localeconv().get("decimal_point", ".")
    if decimal_point != '.':
        text = text.replace(".", decimal_point)
    return locale.atof(text)


class IntegerToStringConverter:'''), ('''            _parser = re.compile(r"""        # A numeric string consists of:
                (?P<sign>[-+])?              # an optional sign, followed by either...
                (
                    (?=\\d|[\\.,]\\d)              # ...a number (with at least one digit)
                    (?P<int>\\d*)             # having a (possibly empty) integer part
                    ([\\.,](?P<frac>\\d*))?       # followed by an optional fractional part
                    (E(?P<exp>[-+]?\\d+))?    # followed by an optional exponent, or...
                )
            """, re.VERBOSE | re.IGNORECASE).match
            m = _parser(formatted_value.strip())
            if m is not None:
                decimal_point = locale.localeconv().get("decimal_point", ".")
                if decimal_point != '.':
                    return locale.atof(m.group(0).replace(".", decimal_point))
                return locale.atof(m.group(0))
            return 0.0
        else:
            decimal_point = locale.localeconv().get("decimal_point", ".")
            if decimal_point != '.':
                return locale.atof(formatted_value.replace(".", decimal_point))
            return locale.atof(formatted_value)
''', '''            m = _NUMBER.match(formatted_value.strip())
            return _parse(m.group()) if m else 0.0
        return _parse(formatted_value)
''')]),
 ('cnv-g-fmt', C, [('return str(int(value * 100)) + "%"', 'return "{}%".format(int(100 * value))'), ('self.__format = format if format else "{:g}"', 'self.__format = format or "{:g}"'), ('self.__format = format + " {:s}" if format else "{:g} {:s}"', 'self.__format = (format or "{:g}") + " {:s}"')]),
 ('cnv-g-fmt2', C, [('return str(int(value * 100)) + "%"', 'return f"{int(value * 100)}%"'), ('return self.__format.format(value * self.__multiplier, self.__units)', 'scaled = self.__multiplier * value\n        return self.__format.format(scaled, self.__units)')]),
 ('cnv-g-scaled', C, [('return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))', 'fraction = (value - self.value_min) / self.__range\n        return int(fraction * self.n)'), ('return value_int * (self.value_max - self.value_min) / self.n + self.value_min', 'return self.value_min + self.__range * (value_int / self.n)\n\n    @property\n    def __range(self):\n        return self.value_max - self.value_min')]),
 ('cnv-g-state', C, [('return "checked" if value else "unchecked"', 'return {True: "checked", False: "unchecked"}[bool(value)]'), ('''        if value is None:
            return None
        if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                        value.strip(), re.IGNORECASE) is not None:
            return uuid.UUID(value.strip())
        return None
''', '''        text = value.strip() if value is not None else None
        if text is not None and re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}", text, flags=re.I):
            return uuid.UUID(text)
        return None
''')]),
 ('cnv-g-date', C, [('''            if len(value) == 26:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
            elif len(value) == 19:
                return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
''', '''            formats = {26: "%Y-%m-%dT%H:%M:%S.%f", 19: "%Y-%m-%dT%H:%M:%S"}
            format = formats.get(len(value))
            if format:
                return datetime.datetime.strptime(value, format)
''')]),
 ('val-g', V, [('''        if self.__min is not None:
            value = max(self.__min, value)
        if self.__max is not None:
            value = min(self.__max, value)
        return value''', '''        if self.__min is not None and value < self.__min:
            value = self.__min
        if self.__max is not None and value > self.__max:
            return self.__max
        return value''')]),
]
