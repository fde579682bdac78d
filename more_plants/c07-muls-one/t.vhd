library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;
entity tb is end entity;
architecture a of tb is
begin
  process is
    variable l : SIGNED(0 downto 0) := "1";
    variable r : SIGNED(3 downto 0) := "0101";
  begin
    assert l * r = -5 report to_string(l * r) severity failure;
    l := "0";
    assert l * r = 0 report to_string(l * r) severity failure;
    wait;
  end process;
end architecture;
