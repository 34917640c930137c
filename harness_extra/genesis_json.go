package config

const genesisJson = mockGenesisJson
