"""itertools and parsing rewritten"""
EDITS = [
    ('itertools', '    deque(iterable, maxlen=0)\n', '    for _ in iterable:\n        pass\n'),
    ('itertools', '    if callable(condition):\n        iterable, ci = tee(iterable)\n        condition = map(condition, ci)\n    i1, i2 = tee(iterable)\n    c1, c2 = tee(condition)\n    return compress(i1, c1), compress(i2, map(op.not_, c2))\n', '    if callable(condition):\n        iterable, inputs = tee(iterable)\n        condition = map(condition, inputs)\n    # bool() only once per element\n    pairs = zip(map(op.truth, condition), iterable) if False else \\\n        zip(iterable, map(op.truth, condition))\n    first, second = tee(pairs)\n    return (\n        (x for x, yes in first if yes),\n        (x for x, yes in second if not yes),\n    )\n'),
    ('parsing', '    if parse_keys:\n        def parse_tuple(key: str, value: str) -> Tuple[Any, Any]:\n            return try_parse(key), try_parse(value)\n    else:\n        def parse_tuple(key: str, value: str) -> Tuple[Any, Any]:\n            return key, try_parse(value)\n\n    def parse_pair(pair: Union[str, Tuple[Any, Any]]) -> Tuple[Any, Any]:\n        if isinstance(pair, str):\n            try:\n                k, v = pair.split(sep, 1)\n            except ValueError as e:\n                raise ValueError(f"{pair} is not like KEY{sep}VALUE") from e\n            return parse_tuple(k, v)\n        return parse_tuple(*pair)\n\n    try:\n        items = items.items()  # type: ignore\n    except AttributeError:\n        pass\n\n    return dict(map(parse_pair, items))\n', '    if isinstance(items, Mapping) or hasattr(items, \'items\'):\n        items = items.items()\n\n    parsed: Dict[Any, Any] = {}\n    for item in items:\n        if isinstance(item, str):\n            key, found, value = item.partition(sep)\n            if not found:\n                raise ValueError(f"{item} is not like KEY{sep}VALUE")\n        else:\n            key, value = item\n        if parse_keys:\n            key = try_parse(key)\n        parsed[key] = try_parse(value)\n    return parsed\n'),
    ('parsing', '        if isinstance(x, str):\n            try:\n                return parse(x)\n            except:  # noqa\n                pass\n        return x\n', '        if not isinstance(x, str):\n            return x\n        try:\n            return parse(x)\n        except BaseException:\n            return x\n'),
]
