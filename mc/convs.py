"""Real plum based converter objects built from the abstract converter tables."""

def converter_objects(conv):
    """(class_serializer, class_deserializer) or None each, for a uni.Conv."""
    import plum

    def build(method, table, template):
        if not table:
            return None
        ns = {"dispatch": plum.Dispatcher(), "Any": __import__("typing").Any, "__name__": __name__}
        src = f"class {'Ser' if method == 'serialize' else 'De'}:\n"
        for i, (typ, fn) in enumerate(table.items()):
            ns[f"T{i}"], ns[f"f{i}"] = typ, fn
            src += template.format(i=i)
        exec(compile(src, __file__, "exec", dont_inherit=True), ns)  # noqa: S102
        return ns["Ser" if method == "serialize" else "De"]()

    ser = build("serialize", conv.sers, "  @dispatch\n  def serialize(self, value: T{i}) -> Any:\n    return f{i}(value)\n")
    de = build("deserialize", conv.des, "  @dispatch\n  def deserialize(self, cls: type[T{i}], value: Any) -> T{i}:\n    return f{i}(value)\n")
    return ser, de


real_class_converters = converter_objects
