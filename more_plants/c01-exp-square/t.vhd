entity tb is end entity;
architecture a of tb is
  function id (x : INTEGER) return INTEGER is begin return x; end function;
begin
  process is
    variable v : INTEGER;
  begin
    v := id(6) ** id(3);
    report INTEGER'image(v);
    v := id(16) ** id(16);
    report INTEGER'image(v);
    wait;
  end process;
end architecture;
