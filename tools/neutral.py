"""Behaviour-preserving changes of the code, on which every check has to stay
quiet: neutral.py [NAME...] [--check CNN,CNN]"""
import os, pathlib, shutil, subprocess, sys, tempfile

V = pathlib.Path(__file__).resolve().parent.parent
U, S, X = "pyudunits2/_unit.py", "pyudunits2/_unit_system.py", "pyudunits2/_udunits2_xml_parser.py"
EXPR = "pyudunits2/_expr/"
G, GR = "pyudunits2/_grammar/__init__.py", EXPR + "graph.py"
N = {}

N["converter"] = [
    (U, "        is_direct_conversion = from_dimensionality == to_dimensionality\n        is_inverted_conversion = inverted_d == to_dimensionality\n        if not (is_direct_conversion or is_inverted_conversion):",
     "        is_inverted_conversion = to_dimensionality == inverted_d\n        is_direct_conversion = to_dimensionality == from_dimensionality\n        if not is_direct_conversion and not is_inverted_conversion:"),
    (U, "        if is_direct_conversion:\n            convert_expr = t2.subs(to_value, transformer1 * d1 / d2)\n        else:\n            convert_expr = t2.subs(to_value, 1 / (transformer1 * d1 * d2))",
     "        replacement = (\n            (d1 / d2) * transformer1\n            if is_direct_conversion\n            else 1 / (d2 * transformer1 * d1)\n        )\n        convert_expr = t2.subs(to_value, replacement)"),
    (U, "        return self._converter(values)", "        convert = self._converter\n        result = convert(values)\n        return result"),
    (U, "        self_d = self.dimensionality()\n        other_d = other.dimensionality()\n        if self_d == other_d:\n            return True\n        # It is also possible to simply invert the dimensionality. For example,\n        # m/s is simply 1/value s/m\n        inverted_d = self_d.inverted()\n        if inverted_d == other_d:\n            return True\n        return False",
     "        mine, theirs = self.dimensionality(), other.dimensionality()\n        return theirs in (mine, mine.inverted())"),
]
N["memo"] = [
    (U, "        return Dimensionality(\n            {basis: order for basis, order in result.items() if order != 0}\n        )",
     "        for basis in [basis for basis, order in result.items() if not order]:\n            del result[basis]\n        return Dimensionality(result)"),
    (U, "        from ._expr.substitute import Substitute\n\n        # print(self._identifier_references)\n        result = Substitute(\n            {\n                identifier: unit._expanded_expr()\n                for identifier, unit in self._identifier_references.items()\n            },\n        ).visit(self._definition)\n        return result",
     "        from ._expr.substitute import Substitute\n\n        expanded = self.__dict__.get(\"_expanded\")\n        if expanded is None:\n            substitutions = {}\n            for identifier, unit in self._identifier_references.items():\n                substitutions[identifier] = unit._expanded_expr()\n            expanded = self._expanded = Substitute(substitutions).visit(self._definition)\n        return expanded"),
]
N["locks"] = [
    (S, "        # Changes with every registration.\n        self._version = 0\n", "        # Changes with every registration.\n        self._version = 0\n        self._lock = threading.RLock()\n"),
    (S, "        unit_expr = parse(unit)\n\n        if unit_expr == unit_graph.Unhandled(\"\"):", "        unit_expr = parse(unit)\n        with self._lock:\n            return self._unit(unit_expr)\n\n    def _unit(self, unit_expr: Node) -> Unit | DateUnit:\n        if unit_expr == unit_graph.Unhandled(\"\"):"),
]
N["lookup"] = [
    (S, """            for prefix_name, prefix in self._prefix_names.items():
                if name_or_symbol.startswith(prefix_name):
                    unit = self._unit_by_name(
                        name_or_symbol[len(prefix_name) :]
                    ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                    if unit:
                        # Refer to the prefix by its value, since it may be
                        # spelled the same as the unit (e.g. "mm").
                        identifier = unit_graph.Identifier(
                            name_or_symbol[len(prefix_name) :]
                        )
                        result = Unit(
                            definition=_prefixed(prefix, identifier, unit),
                            identifier_references={identifier: unit},
                        )
                        break
""", """            result = self._prefixed_unit(self._prefix_names, name_or_symbol)
"""),
    (S, """            for prefix_symbol, prefix in self._prefix_symbols.items():
                if name_or_symbol.startswith(prefix_symbol):
                    unit = self._unit_by_name(
                        name_or_symbol[len(prefix_symbol) :]
                    ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                    if unit:
                        # Refer to the prefix by its value, since it may be
                        # spelled the same as the unit (e.g. "mm").
                        identifier = unit_graph.Identifier(
                            name_or_symbol[len(prefix_symbol) :]
                        )
                        result = Unit(
                            definition=_prefixed(prefix, identifier, unit),
                            identifier_references={identifier: unit},
                        )
                        break
""", """            result = self._prefixed_unit(self._prefix_symbols, name_or_symbol)
"""),
    (S, "    def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:", """    def _prefixed_unit(self, prefixes: dict[str, Prefix], text: str) -> Unit | None:
        for spelling in prefixes:
            rest = text.removeprefix(spelling)
            if rest == text and spelling:
                continue
            unit = self._unit_by_name(rest)
            if unit is None:
                unit = self._unit_by_symbol(rest)
            if unit is None:
                continue
            identifier = unit_graph.Identifier(rest)
            return Unit(
                definition=_prefixed(prefixes[spelling], identifier, unit),
                identifier_references={identifier: unit},
            )
        return None

    def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:"""),
    (S, """        if ref.name is not None:
            if not replace and ref.name.singular in self._names:
                raise ValueError(
                    f"unit name '{ref.name.singular}' already registered in "
                    "the system"
                )
            if not replace and ref.name.plural and ref.name.plural in self._names:
                raise ValueError(
                    f"unit name '{ref.name.plural}' already registered in " "the system"
                )

        for symbol in ref.symbols:
            if not replace and symbol in self._symbols:
                raise ValueError(
                    f"unit symbol '{symbol}' already registered in the system"
                )

        if ref.name is not None:
            self._names[ref.name.singular] = unit
            if ref.name.plural:
                self._names[ref.name.plural] = unit

        for symbol in ref.symbols:
            self._symbols[symbol] = unit
""", """        names = []
        if ref.name is not None:
            names = [name for name in (ref.name.singular, ref.name.plural) if name or name == ref.name.singular]
        if not replace:
            for name in names:
                if name in self._names:
                    raise ValueError(f"the name '{name}' is taken")
            if taken := set(ref.symbols) & set(self._symbols):
                raise ValueError(f"the symbols {taken} are taken")

        self._symbols.update(dict.fromkeys(ref.symbols, unit))
        self._names.update(dict.fromkeys(names, unit))
"""),
    (S, "        unit = self._names.get(name, None) or self._alias_names.get(name, None)", "        unit = self._names.get(name)\n        if unit is None:\n            unit = self._alias_names.get(name)"),
]
N["grammar"] = [
    (G, "        # Return the graph representation.\n        return visitor.visit(tree)\n", "        # Return the graph representation.\n        graph_node = visitor.visit(tree)\n        return graph_node\n"),
    (G, "def parse(unit_str: str) -> graph.Node:", "@functools.lru_cache(maxsize=None)\ndef parse(unit_str: str) -> graph.Node:"),
    (G, "import unicodedata\n", "import functools\nimport unicodedata\n"),
    (G, "            if isinstance(nodes, list):\n                nodes = graph.Shift(*nodes)" if False else "        if isinstance(nodes, list):\n            nodes = graph.Shift(*nodes)\n        return nodes", "        if not isinstance(nodes, list):\n            return nodes\n        unit, shift_from = nodes\n        return graph.Shift(unit=unit, shift_from=shift_from)"),
    (G, "        \"LOG\": lambda c: c.split(\"(\")[0].strip(),", "        \"LOG\": lambda c: c.partition(\"(\")[0].rstrip(),"),
    (G, "            if len(nodes) == 3 and nodes[1] == \"/\":\n                op_type = graph.Divide\n            else:\n                assert len(nodes) == 2\n                op_type = graph.Multiply\n            first = nodes[0]\n            last = nodes[-1]\n            node = op_type(first, last)",
     "            first, *operator, last = nodes\n            node = (graph.Divide if operator else graph.Multiply)(first, last)"),
]
N["xml"] = [
    (X, "        if len(element) > 0:\n            for child in element:\n                children.append(cls.from_element(child))\n", "        children.extend(map(cls.from_element, element))\n"),
    (X, "            symbols = []\n            for symbol_tag in unit_tag.pop_iter_tags(\"symbol\"):\n                symbols.append(symbol_tag.text)\n", "            symbols = [tag.text for tag in unit_tag.pop_iter_tags(\"symbol\")]\n"),
    (X, "            if singular_name.endswith((\"s\", \"ss\", \"sh\", \"ch\", \"x\", \"z\")):", "            if singular_name[-1:] in tuple(\"sxz\") or singular_name[-2:] in (\"sh\", \"ch\"):"),
    (X, "        system = UnitSystem()\n\n        for prefix_tag in unit_system_t.pop_iter_tags(\"prefix\"):\n            system.add_prefix(cls.handle_prefix(prefix_tag))\n", "        system = UnitSystem()\n\n        prefixes = list(map(cls.handle_prefix, unit_system_t.pop_iter_tags(\"prefix\")))\n        for prefix in prefixes:\n            system.add_prefix(prefix)\n"),
]
N["sympy"] = [
    (EXPR + "sympy.py", "        return self.visit(node.unit) - self.visit(node.shift_from)", "        offset = self.visit(node.shift_from)\n        return -offset + self.visit(node.unit)"),
    (EXPR + "sympy.py", "        base = bases[node.function]\n        if base is None:\n            return sympy.log(self.visit(node.term))\n        else:\n            return sympy.log(self.visit(node.term), bases[node.function])", "        base = bases[node.function]\n        term = self.visit(node.term)\n        return sympy.log(term, base) if base else sympy.log(term)"),
    (EXPR + "substitute.py", "    def visit_Multiply(self, node: unit_graph.Raise):\n        return unit_graph.Multiply(self.visit(node.lhs), self.visit(node.rhs))\n\n    def visit_Divide(self, node: unit_graph.Divide):\n        return unit_graph.Divide(self.visit(node.lhs), self.visit(node.rhs))\n", "    def _visit_both(self, node):\n        rhs = self.visit(node.rhs)\n        return type(node)(self.visit(node.lhs), rhs)\n\n    visit_Multiply = visit_Divide = _visit_both\n"),
    (EXPR + "dimensionality.py", "        rhs_scope = self.visit(node.rhs)\n\n        for ut, order in rhs_scope.items():\n            scope[ut] = scope.get(ut, 0) - order\n        return scope", "        divisor = self.visit(node.rhs)\n        return {\n            ut: scope.get(ut, 0) - divisor.get(ut, 0)\n            for ut in [*divisor, *scope]\n        }"),
    (EXPR + "atoms.py", "        result = set()\n\n        for child in node.children():\n            result |= self.visit(child)\n        return result", "        return {found for child in node.children() for found in self.visit(child)}"),
]
N["expander"] = [
    (EXPR + "expander.py", "        result = unit_graph.Number(1, raw_content=None)\n        if len(terms) == 1:\n            result = terms[0]\n        elif len(terms) > 1:\n            result = terms.pop()\n            for term in terms[::-1]:\n                result = unit_graph.Multiply(term, result)\n        return result",
     "        if not terms:\n            return unit_graph.Number(1, raw_content=None)\n        *others, result = terms\n        while others:\n            result = unit_graph.Multiply(others.pop(), result)\n        return result"),
    (EXPR + "expander.py", "        for term, raise_to in expansion._chain:\n            self._expansion[-1].add_term(term, -raise_to)\n\n        for term, raise_to in offset._chain:\n            # TODO: Figure out what this should be.\n            self._offset_terms[-1].add_term(term, raise_to)\n\n        # expansion", "        target = self._expansion[-1]\n        for term, raise_to in expansion._chain:\n            target._chain.append((term, 0 - raise_to))\n\n        self._offset_terms[-1]._chain.extend(offset._chain)\n\n        # expansion"),
]
N["text"] = [
    (GR, "        return f\"{self.lhs}·{self.rhs}\"", "        return \"·\".join((str(self.lhs), str(self.rhs)))"),
    (GR, "        return f\"({self.unit} @ {self.shift_from})\"", "        content = f\"{self.unit!s} @ {self.shift_from!s}\"\n        return f\"({content})\""),
    ("pyudunits2/_datetime.py", "        if self.second or self.microseconds:\n            t_str += f\":{self.second:02}\"\n        if self.microseconds:\n            t_str += f\".{self.microseconds:06}\"\n        return t_str", "        parts = [t_str]\n        if (self.second, self.microseconds) != (0, 0):\n            parts.append(f\"{self.second:02}\")\n        text = \":\".join(parts)\n        return f\"{text}.{self.microseconds:06}\" if self.microseconds else text"),
    ("pyudunits2/_datetime.py", "        return (\n            self.year == other.year\n            and self.month == other.month\n            and self.day == other.day\n            and self.time == other.time\n            and self.tz_offset == other.tz_offset\n        )", "        def fields(d):\n            return (d.tz_offset, d.time, d.day, d.month, d.year)\n\n        return fields(self) == fields(other)"),
    ("pyudunits2/__main__.py", "    unit = unit_system.unit(args.unit)\n    basis_unit = unit.expanded()\n    print(f\"Unit: {unit}\")\n    print(f\"In basis form: {basis_unit}\")\n    print(f\"Dimensionality: {unit.dimensionality()}\")", "    unit = unit_system.unit(args.unit)\n    lines = [\n        f\"Unit: {unit}\",\n        f\"In basis form: {unit.expanded()}\",\n        f\"Dimensionality: {unit.dimensionality()}\",\n    ]\n    print(\"\\n\".join(lines))"),
    ("pyudunits2/_unit_reference.py", "        if \".\" or \"e\" in self.value:\n            return Number(Decimal(self.value), raw_content=self.value)\n        else:\n            return Number(int(self.value), raw_content=self.value)", "        value = Decimal(self.value)\n        return Number(value, raw_content=self.value)"),
]
N["normaliser"] = [
    (EXPR + "normaliser.py", "    def visit_Logarithm(self, node: unit_graph.Logarithm):\n        normed_term = self.visit(node.term)\n        if normed_term is not None:\n            node = unit_graph.Logarithm(node.function, normed_term)\n            return node\n        return None", "    def visit_Logarithm(self, node: unit_graph.Logarithm):\n        term = self.visit(node.term)\n        return None if term is None else unit_graph.Logarithm(node.function, term)"),
    (U, "            date_ref = unit_expr.shift_from\n            if isinstance(date_ref, unit_graph.Number):\n                date_ref = unit_graph.Unhandled(date_ref.raw_content)\n            if not isinstance(date_ref, unit_graph.Unhandled):\n                raise ValueError(f\"Unexpected parse type for date: {type(date_ref)}\")\n", "            date_ref = _as_date(unit_expr.shift_from)\n"),
    (U, "def _unit_from_expression_and_identifiers(\n", "def _as_date(node: unit_graph.Node) -> unit_graph.Unhandled:\n    if isinstance(node, unit_graph.Unhandled):\n        return node\n    elif isinstance(node, unit_graph.Number):\n        return unit_graph.Unhandled(node.raw_content)\n    raise ValueError(f\"Not a date: {node}\")\n\n\ndef _unit_from_expression_and_identifiers(\n"),
    (U, "        basis = self.dimensionality()\n        if len(basis) == 1:\n            [basis_unit, basis_unit_order] = next(iter(basis.items()))\n            return basis_unit.is_time_unit() and basis_unit_order == 1\n        return False", "        orders = list(self.dimensionality().items())\n        return (\n            len(orders) == 1 and orders[0][1] == 1 and orders[0][0].is_time_unit()\n        )"),
    (EXPR + "split.py", "        if t1 is None:\n            t1 = unit_graph.Identifier(name=\"value\")\n        return unit_graph.Logarithm(function=node.function, term=t1), d1", "        term = unit_graph.Identifier(name=\"value\") if t1 is None else t1\n        return unit_graph.Logarithm(node.function, term), d1"),
]


def sh(*cmd, **kw):
    p = subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout


def main():
    args = sys.argv[1:]
    checks = [f"C{i:02}" for i in range(1, 22)]
    if "--check" in args:
        k = args.index("--check")
        checks = args[k + 1].split(",")
        del args[k:k + 2]
    for name in args or N:
        d = pathlib.Path(tempfile.mkdtemp(prefix="neutral-", dir="/tmp"))
        repo = d / "repo"
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            for file, old, new in N[name]:
                p = repo / file
                s = p.read_text()
                assert s.count(old) == 1, (name, file, s.count(old), old)
                p.write_text(s.replace(old, new))
            rc, out = sh("/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "pyudunits2", cwd=repo, env={**os.environ, "PYTHONPATH": str(repo)})
            print(f"{name}: tests {out.splitlines()[-1]}", flush=True)
            for c in checks:
                rc, out = sh(str(V / "check.py"), c, cwd=V, env={**os.environ, "VERIF_REPO": str(repo)})
                print(f"{name}: {c}: {rc} {out[-900:] if rc else out.splitlines()[-1]}", flush=True)
        finally:
            shutil.rmtree(d)


main()
