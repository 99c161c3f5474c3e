"""dsim: deterministic simulation of desimeter with fault injection."""
