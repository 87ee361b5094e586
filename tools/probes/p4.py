F="../docs/src/components/PlaygroundClient.tsx"
P=[
("pg-stale","C22",F,"      setUploadedCiphertext(null);\n",""),
("pg-order","C22",F,"const ciphertextToUse = uploadedCiphertext || ciphertext;","const ciphertextToUse = ciphertext || uploadedCiphertext;"),
("pg-lost-update","C22",F,"""      setCustomCircuitFiles((prev) => ({
        r1csBuffer,
        symContent: prev?.symContent || "",
        wasmBuffer: prev?.wasmBuffer || new Uint8Array(),
      }));""","""      setCustomCircuitFiles({
        r1csBuffer,
        symContent: customCircuitFiles?.symContent || "",
        wasmBuffer: customCircuitFiles?.wasmBuffer || new Uint8Array(),
      });"""),
("pg-noembed","C22",F,"        { includePublicInput }","        { includePublicInput: true }"),
("pg-trim","C22",F,"encoder.encode(message)","encoder.encode(message.trim())"),
("pg-trim2","C22",F,"encoder.encode(customMessage)","encoder.encode(customMessage.normalize())"),
("pg-busy","C22",F,"""      setCiphertext(encryptedData);
      setUploadedCiphertext(null);
      setError("");
    } catch (err) {
      console.error(err);
      setError(err instanceof Error ? err.message : "Encryption failed");
    } finally {
      setLoading(false);
    }""","""      setCiphertext(encryptedData);
      setUploadedCiphertext(null);
      setError("");
      setLoading(false);
    } catch (err) {
      console.error(err);
      setError(err instanceof Error ? err.message : "Encryption failed");
    }"""),
("pg-nosol","C22",F,"          setSolution(publicInputs.puzzle); // Initialize solution with puzzle\n",""),
("pg-nomode","C22",F,"""      setMode("decrypt");
    };
    reader.readAsArrayBuffer(file);
  };

  // Custom""","""    };
    reader.readAsArrayBuffer(file);
  };

  // Custom"""),
("pg-inplace","C22",F,"const newValues = [...values];","const newValues = values;"),
("pg-merge-order","C22",F,"""          ...JSON.parse(customPublicInput),
          ...fullInputs,""","""          ...fullInputs,
          ...JSON.parse(customPublicInput),"""),
("pg-clear-public","C22",F,"""        console.log("Public input not included in ciphertext:", err);
      }

      setMode("decrypt");
    };
    reader.readAsArrayBuffer(file);
  };

  const handleDownloadCustom""","""        setCustomPublicInput("{}");
      }

      setMode("decrypt");
    };
    reader.readAsArrayBuffer(file);
  };

  const handleDownloadCustom"""),
("pg-download","C22",F,"const blob = new Blob([ciphertext], {","const blob = new Blob([uploadedCiphertext || ciphertext], {"),
("pg-regenerate","C22",F,"""    handleGenerateRandom();
  }, []);""","""    handleGenerateRandom();
  }, [activeTab]);"""),
("pg-unlock","C22",F,"disabled={!editable || isGiven}","disabled={!editable}"),
("pg-given","C22",F,'const isGiven = type === "solution" && puzzle[index] !== 0;','const isGiven = type === "solution" && value !== 0;'),
("pg-fallback","C22",F,"fullInputs = JSON.parse(customPrivateInput || customPublicInput);","fullInputs = JSON.parse(customPublicInput || customPrivateInput);"),
("pg-decode","C22",F,"setDecrypted(decryptedMessage || ","setDecrypted(decryptedMessage.split('\\\\n')[0] || "),
("pg-cell9","C22",F,"newValue <= 9)","newValue < 9)"),
("pg-ok","C22",F,"if (!r1csRes.ok || !symRes.ok || !wasmRes.ok)","if (!r1csRes.ok && !symRes.ok && !wasmRes.ok)"),
("pg-sol-puzzle","C22",F,"setSolution([]);\n    setError(\"\");\n  };","setError(\"\");\n  };"),
("pg-solve-cache","C22",F,"setSolution(solvedPuzzle);","setSolution((s) => (s.length ? s : solvedPuzzle));"),
("pg-json-noerr","C22",F,"""        setCustomPrivateInput(JSON.stringify(json, null, 2));""","""        setCustomPublicInput(JSON.stringify(json, null, 2));"""),
("pg-large","C22",F,"const blob = new Blob([customCiphertext], {","const blob = new Blob([customCiphertext.buffer.slice(0, 65536)], {"),
("pg-useeffect","C22",F,"""  useEffect(() => {
    // Initialize""","""  useEffect(() => {
    setCustomMessage("");
  }, [mode]);

  useEffect(() => {
    // Initialize"""),
("pg-loading-shared","C22",F,"disabled={loading || !message}","disabled={!message}"),
("pg-error-tab","C22",F,"{error && mode === \"decrypt\" && activeTab === \"custom\" && (","{error && mode === \"decrypt\" && activeTab === \"sudoku\" && ("),
("pg-wrap","C22","../docs/src/pages/playground.tsx","setPlaygroundClient(() => mod.default);","setPlaygroundClient(mod.default as any);"),
("pg-eager","C22","../docs/src/pages/playground.tsx",'import Layout','import "../components/PlaygroundClient";\nimport Layout'),
]
