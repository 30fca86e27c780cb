from . import api, codec, conduit, differ, effects, errors, format, memory, pipeline, query, rebuild, streams, verify, within

REGISTRY = {
    "M01": memory.heap,
    "M02": memory.resources,
    "M03": memory.nulls,
    "M04": memory.uninit,
    "M05": errors.swallowed,
    "V01": verify.output,
    "V02": verify.source,
    "A01": api.arguments,
    "A02": api.options,
    "A03": query.queries,
    "A04": api.strerror,
    "F01": format.writer,
    "F02": format.reader,
    "F03": codec.integers,
    "C01": codec.codes,
    "C02": streams.setup,
    "C03": conduit.chunks,
    "P01": pipeline.making,
    "P02": rebuild.applying,
    "P03": differ.describing,
    "P04": within.staying,
    "S01": effects.files,
    "S02": effects.state,
}
