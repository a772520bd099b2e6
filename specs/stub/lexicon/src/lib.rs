// Builds target-lexicon for the verifier.
