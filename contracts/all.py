from . import changelogs, contexts, copies, edits, equality, lookups, lossless, options, parsing, releases, sections, specfile, values, versions

CONTRACTS = (lossless.CONTRACTS + values.CONTRACTS + versions.CONTRACTS + edits.CONTRACTS + sections.CONTRACTS
             + specfile.CONTRACTS + parsing.CONTRACTS + copies.CONTRACTS + lookups.CONTRACTS + releases.CONTRACTS
             + equality.CONTRACTS + contexts.CONTRACTS + changelogs.CONTRACTS
             + options.CONTRACTS)
